------------------------------- MODULE DirGen -------------------------------
EXTENDS DirMachine, Json
CONSTANTS Names, Steps, MaxObjs, MaxDepth
VARIABLES s, hist
vars == <<s, hist>>
Init == s = Start /\ hist = <<>>
Rel == {<<n>> : n \in Names} \cup {<<n, m>> : n, m \in Names}
Do(x) == /\ Len(hist) < Steps /\ Enabled(s, x) /\ s' = After(s, x) /\ hist' = Append(hist, x)
Next == \/ \E p \in Rel : Len(s.objs) < MaxObjs /\ Do([a |-> "make", o |-> 0, p |-> p])
        \/ \E o \in 1..MaxObjs : Len(s.stack) < MaxDepth /\ Do([a |-> "enter", o |-> o, p |-> <<>>])
        \/ Do([a |-> "leave", o |-> 0, p |-> <<>>])
        \/ Do([a |-> "raise", o |-> 0, p |-> <<>>])
        \/ \E p \in s.dirs : Do([a |-> "chdir", o |-> 0, p |-> p])
        \/ \E n \in Names : Do([a |-> "file", o |-> 0, p |-> Append(s.cwd, n)])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Steps => PrintT("GEN " \o ToJson([k |-> "dir", steps |-> hist]))
\* the machine itself: the current directory exists, scopes are below their home, leaving restores the home
CwdExists == s.cwd \in s.dirs
HomesExist == \A o \in DOMAIN s.objs : s.objs[o].home \in s.dirs
Closed == \A d \in s.dirs : d = <<>> \/ Parent(d) \in s.dirs
NoClash == s.dirs \cap s.files = {}
Restores == [][Len(s'.stack) < Len(s.stack) => s'.cwd = s.objs[s.stack[Len(s.stack)]].home]_vars
NmDir == {"x", "y"}
=============================================================================

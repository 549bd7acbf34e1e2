----------------------------- MODULE DirMachine -----------------------------
(***************************************************************************)
(* Scoped directories.  A path is a sequence of names below a scratch      *)
(* root.  State: the directories that exist, the current one, the scope    *)
(* objects made so far (target and directory at creation) and the stack of *)
(* entered scopes.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start == [dirs |-> {<<>>}, files |-> {}, cwd |-> <<>>, objs |-> <<>>, stack |-> <<>>]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
CanEnter(s, o) == LET t == s.objs[o].target IN t \in s.dirs \/ (Parent(t) \in s.dirs /\ t \notin s.files)

\* step [a, o, p]: action, object, path (relative for make, absolute below the root for chdir)
Enabled(s, x) == CASE x.a = "make" -> TRUE
                   [] x.a = "enter" -> x.o \in DOMAIN s.objs /\ Parent(s.objs[x.o].target) \in s.dirs
                   [] x.a \in {"leave", "raise"} -> s.stack # <<>>
                   [] x.a = "chdir" -> x.p \in s.dirs
                   [] x.a = "file" -> x.p \notin s.dirs /\ x.p # <<>> /\ Parent(x.p) \in s.dirs
Succeeds(s, x) == x.a # "enter" \/ CanEnter(s, x.o)
After(s, x) ==
  CASE x.a = "make" -> [s EXCEPT !.objs = Append(@, [target |-> s.cwd \o x.p, home |-> s.cwd])]
    [] x.a = "enter" /\ CanEnter(s, x.o) -> [s EXCEPT !.dirs = @ \cup {s.objs[x.o].target}, !.cwd = s.objs[x.o].target, !.stack = Append(@, x.o)]
    [] x.a = "enter" /\ ~CanEnter(s, x.o) -> s
    [] x.a \in {"leave", "raise"} -> [s EXCEPT !.cwd = s.objs[s.stack[Len(s.stack)]].home, !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] x.a = "chdir" -> [s EXCEPT !.cwd = x.p]
    [] x.a = "file" -> [s EXCEPT !.files = @ \cup {x.p}]
=============================================================================

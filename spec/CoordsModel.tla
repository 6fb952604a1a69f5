----------------------------- MODULE CoordsModel -----------------------------
(***************************************************************************)
(* Histories of conversions of one event.  The model carries the current     *)
(* representation; the invariant is that the Cartesian image (position and   *)
(* velocity) never changes, whatever the path, and that coming back to a     *)
(* system gives the representation it had.                                   *)
(***************************************************************************)
EXTENDS Coords, Json
CONSTANTS MAXLEN, EMIT
VARIABLES place, spin, path, sysnow, rep, seen
cvars == <<place, spin, path, sysnow, rep, seen>>
(* a grid of places (units of G M / c^2 = 1): octants, coordinate planes,    *)
(* axes; away from the ring                                                  *)
Grid == {<<a, b, c>> \in {-5, 0, 4} \X {-3, 0, 6} \X {-7, 0, 2} : a # 0 \/ b # 0 \/ c # 0}
Spins == {Q0, Q(1, 2), Q(9, 10), Q1}
Cart0 == [i \in 1..3 |-> J1(QI(place[i]), Q(i*i - 3, 5))]
OnAxis == place[1] = 0 /\ place[2] = 0
Seen0 == [s \in Systems |-> IF s = "Cartesian" THEN rep ELSE <<>>]
CInit == /\ place \in (IF EMIT THEN {<<4, 6, 2>>} ELSE Grid) /\ spin \in (IF EMIT THEN {Q(1, 2)} ELSE Spins)
         /\ path = <<>> /\ sysnow = "Cartesian"
         /\ rep = Cart0 /\ seen = Seen0
Args == IF EMIT THEN {"both", "none", "M", "a"} ELSE {"both"}
Emit(p) == EMIT => PrintT("BEH|" \o ToJson([path |-> p]))
Convert(to, args) ==
  /\ to # sysnow
  /\ LET ok == args = "both" \/ ~NeedsHole(sysnow, to)
         p == Append(path, [to |-> to, args |-> args])
         nr == TLCEval(IF ok THEN FromCart(to, spin, ToCart(sysnow, spin, rep)) ELSE rep)
     IN /\ path' = p /\ Emit(p)
        /\ sysnow' = IF ok THEN to ELSE sysnow
        /\ rep' = nr
        /\ seen' = IF ok /\ seen[to] = <<>> THEN [seen EXCEPT ![to] = nr] ELSE seen
        /\ UNCHANGED <<place, spin>>
CNext == Len(path) < MAXLEN /\ \E to \in Systems : \E a \in Args : Convert(to, a)
CSpec == CInit /\ [][CNext]_cvars
Small(x) == QLe(QAbs(x), P10(-20))
SameEvent == LET c == ToCart(sysnow, spin, rep) IN
  \A i \in 1..3 : Small(NSub(c[i][1], Cart0[i][1])) /\ (~OnAxis => Small(NSub(c[i][2], Cart0[i][2])))
RoundTrip == ~OnAxis => \A i \in 1..3 : Small(NSub(rep[i][1], seen[sysnow][i][1])) /\ Small(NSub(rep[i][2], seen[sysnow][i][2]))
SpinlessIsSpherical == LET c == ToCart(sysnow, spin, rep) IN
  IsZero(spin) => \A i \in 1..3 : Small(NSub(FromCart("BoyerLindquist", Q0, c)[i][1], FromCart("Spherical", Q0, c)[i][1]))
=============================================================================

-------------------------------- MODULE M_url --------------------------------
(* URL texts spelled fragment by fragment.  A left-to-right splitter (one   *)
(* step for each byte, the shape any streaming parser has) is compared with *)
(* the declarative reading ParseUrl, and the round trip laws of FormatUrl   *)
(* and the percent coding are checked on every text reached.                *)
EXTENDS Url, Json

CONSTANTS Depth
VARIABLES hist, text, a
vars == <<hist, text, a>>

Frags == {<<Slash>>, <<Question>>, <<AtSign>>, <<Colon>>, <<56>>, <<97>>, <<Percent, 52, 49>>, <<Percent>>, <<LBr>>, <<RBr>>, <<Percent, 51, 97>>, <<195, 169>>}
Seeds == {<<>>, HttpS \o <<Colon, Slash, Slash>>, FtpS \o <<Colon, Slash, Slash, 97>>, <<Slash>>, HttpS}

(* ---- the splitter: raw components by position ---- *)
A0 == [ph |-> "start", scheme |-> <<>>, cur |-> <<>>, info |-> None, auth |-> <<>>, path |-> <<>>, query |-> None, dead |-> FALSE]
AKill(x) == [x EXCEPT !.dead = TRUE]
AGo(x, ph) == [x EXCEPT !.ph = ph]
AStep(x, c) ==
  IF x.dead THEN x
  ELSE IF ~IsVChar(c) THEN AKill(x)
  ELSE CASE x.ph = "start" -> IF c = Slash THEN [AGo(x, "path") EXCEPT !.path = <<c>>] ELSE IF IsAlpha(c) THEN [AGo(x, "scheme") EXCEPT !.scheme = <<c>>] ELSE AKill(x)
         [] x.ph = "scheme" -> IF IsSchemeChar(c) THEN [x EXCEPT !.scheme = Append(@, c)] ELSE IF c = Colon THEN AGo(x, "s1") ELSE AKill(x)
         [] x.ph = "s1" -> IF c = Slash THEN AGo(x, "s2") ELSE AKill(x)
         [] x.ph = "s2" -> IF c = Slash THEN AGo(x, "auth") ELSE AKill(x)
         [] x.ph = "auth" -> IF c = Slash THEN [AGo(x, "path") EXCEPT !.path = <<c>>]
                             ELSE IF c = Question THEN [AGo(x, "query") EXCEPT !.query = Some(<<>>)]
                             ELSE IF c = AtSign THEN (IF x.info # None THEN AKill(x) ELSE [x EXCEPT !.info = Some(x.auth), !.auth = <<>>])
                             ELSE [x EXCEPT !.auth = Append(@, c)]
         [] x.ph = "path" -> IF c = Question THEN [AGo(x, "query") EXCEPT !.query = Some(<<>>)] ELSE [x EXCEPT !.path = Append(@, c)]
         [] OTHER -> [x EXCEPT !.query = Some(Append(@[1], c))]
ARun(x, q) == FoldLeft(AStep, x, q)

Init == \E s \in Seeds : hist = <<>> /\ text = s /\ a = ARun(A0, s)
Next == /\ Len(hist) < Depth /\ ~a.dead
        /\ \E f \in Frags : /\ hist' = Append(hist, f) /\ text' = text \o f /\ a' = ARun(a, f)
                            /\ PrintT("SCRIPT " \o ToJson(<<[op |-> "parse", b |-> text', form |-> 0], [op |-> "auth", b |-> text']>>))
Spec == Init /\ [][Next]_vars

Complete(x) == ~x.dead /\ x.ph \in {"auth", "path", "query"}
Pathed(x) == IF x.path = <<>> THEN <<Slash>> ELSE x.path
(* the declarative reading and the splitter put every byte in the same component *)
SameSplit == LET u == ParseUrl(text) IN
  /\ ~Complete(a) => u.v = "bad"
  /\ u.v = "ok" => /\ Complete(a)
                   /\ Some(u.path) = Decoded1(Pathed(a))
                   /\ (IF a.query = None THEN u.query = None ELSE u.query = Decoded1(a.query[1]))
                   /\ (IF a.scheme = <<>> THEN u.scheme = None /\ u.dom = None
                       ELSE /\ u.scheme = a.scheme
                            /\ LET hp == HostPort(a.auth) IN u.dom = Decoded1(hp.host) /\ u.port = (IF hp.port = None THEN DefaultPort(a.scheme) ELSE hp.port[1])
                            /\ (IF a.info = None THEN u.user = None /\ u.pass = None
                                ELSE LET k == IndexOfB(a.info[1], Colon) IN u.user = Decoded1(Take(a.info[1], k - 1)) /\ u.pass = Decoded1(Drop(a.info[1], k))))
(* whatever a text denotes, writing it and reading it again denotes the same *)
RoundTripLaw == LET u == ParseUrl(text) IN
  u.v = "ok" => LET f == FormatUrl(u) IN /\ \A k \in 1..Len(f) : IsVChar(f[k])
                                         /\ LET w == ParseUrl(f) IN w.v = "lax" \/ (w = u /\ FormatUrl(w) = f)
PctLaw == LET e == PctEncode(text, {}) IN PctDecode(e) = [ok |-> TRUE, b |-> text] /\ \A k \in 1..Len(e) : IsUnreserved(e[k]) \/ e[k] = Percent
=============================================================================

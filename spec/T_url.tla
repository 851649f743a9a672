-------------------------------- MODULE T_url --------------------------------
EXTENDS Url, TraceBase

UrlInitSt(sess) == <<>>
Expect(c, st2, x) == IF c THEN [ok |-> TRUE, st |-> st2, exp |-> ""] ELSE [ok |-> FALSE, st |-> st2, exp |-> x]

(* a URL as the code shows it, as the specification writes it *)
SameUrl(u, x) == /\ u.scheme = (IF x.scheme = None THEN <<>> ELSE <<x.scheme>>) /\ u.user = x.user /\ u.pass = x.pass
                 /\ u.dom = x.dom /\ u.port = x.port /\ u.path = x.path /\ u.query = x.query
(* an address in brackets is written as it is: it has no percent form *)
IsHexD(c) == IsDigit(c) \/ c \in 97..102 \/ c \in 65..70
Address(h) == IsIp6(h) /\ \A k \in 2..(Len(h) - 1) : IsHexD(h[k]) \/ h[k] \in {Colon, 46}
After(q, p) == Take(q, Len(p)) = p
AddressShown(u, f) == u.dom # None /\ Address(u.dom[1]) /\ u.scheme # <<>> =>
  LET r == Drop(f, Len(u.scheme[1]) + 3) at == IF u.user = None /\ u.pass = None THEN 0 ELSE IndexOfB(r, AtSign) IN After(Drop(r, at), u.dom[1])
(* formatting gives a text that denotes the same URL, and formatting that gives the same text *)
RoundTrip(r) == /\ r.eqs = <<1, 1, 0>> /\ r.re.t = "ok" /\ r.re.u = r.u /\ r.re.f = r.f /\ r.re.eq = 1 /\ AddressShown(r.u, r.f)
                /\ LET x == ParseUrl(r.f) IN x.v = "lax" \/ (x.v = "ok" /\ SameUrl(r.u, x))

SchemeTextOk(q) == q # <<>> /\ IsAlpha(q[1]) /\ (\A k \in 1..Len(q) : IsSchemeChar(q[k])) /\ Lower(q) = q
(* URLs that have a text: an authority only with a scheme, and then with a host and a port *)
Writable(u) == /\ u.path # <<>> /\ u.path[1] = Slash
               /\ IF u.scheme = <<>> THEN u.dom = None /\ u.user = None /\ u.pass = None
                  ELSE SchemeTextOk(u.scheme[1]) /\ u.dom # None /\ u.dom[1] # <<>>
(* what is read back: absent parts that the text cannot leave out take their defaults *)
Normal(u) == [u EXCEPT !.port = IF u.scheme = <<>> THEN 0 ELSE IF @ < 0 THEN DefaultPort(u.scheme[1]) ELSE @,
                       !.user = IF @ = None /\ u.pass # None THEN Some(<<>>) ELSE @,
                       !.pass = IF @ = None /\ u.user # None THEN Some(<<>>) ELSE @]

(* merging: parts of the other URL win unless they are absent or the default *)
Merged(a, b) == [scheme |-> IF b.scheme = None THEN a.scheme ELSE b.scheme, user |-> IF b.user = None THEN a.user ELSE b.user,
                 pass |-> IF b.pass = None THEN a.pass ELSE b.pass, dom |-> IF b.dom = None THEN a.dom ELSE b.dom,
                 port |-> IF b.port \in {-1, 0} THEN a.port ELSE b.port, path |-> IF b.path = <<Slash>> THEN a.path ELSE b.path,
                 query |-> IF b.query = None THEN a.query ELSE b.query, v |-> "ok"]

Authority(x) == IF x.dom = None THEN <<>>
                ELSE x.dom[1] \o (IF x.scheme = None \/ (x.scheme = HttpS /\ x.port = 80) \/ (x.scheme = HttpsS /\ x.port = 443) THEN <<>>
                                  ELSE <<Colon>> \o DecText(x.port))

UrlStep(m, e) ==
  LET r == e.r IN
  CASE e.op = "parse" ->
         LET x == ParseUrl(e.b) IN
         Expect(CASE x.v = "ok" -> r.t = "ok" /\ SameUrl(r.u, x) /\ RoundTrip(r)
                  [] x.v = "bad" -> r.t = "err"
                  [] OTHER -> r.t = "err" \/ (r.t = "ok" /\ RoundTrip(r)), m, x)
    [] e.op = "build" ->
         LET u == Built(e.calls) IN
         Expect(IF u.bad THEN r.t = "err"
                ELSE /\ r.t = "ok" /\ r.u = Strip(u) /\ r.eqs = <<1, 1, 0>>
                     /\ Writable(u) => /\ r.re.t = "ok" /\ r.re.u = Normal(Strip(u))
                                       /\ (u.scheme # <<>> /\ u.port < 0) \/ r.re.f = r.f
                                       /\ LET y == ParseUrl(r.re.f) IN y.v = "ok" /\ SameUrl(r.re.u, y)
                                       /\ AddressShown(r.u, r.f)
                                       /\ LET x == ParseUrl(r.f) IN x.v = "ok" /\ SameUrl(r.re.u, x), m, u)
    [] e.op = "merge" ->
         LET a == ParseUrl(e.a) b == ParseUrl(e.b) IN
         Expect((a.v = "ok" /\ b.v = "ok") => r.t = "ok" /\ SameUrl(r.u, Merged(a, b)), m, <<a, b>>)
    [] e.op = "auth" ->
         LET x == ParseUrl(e.b) IN
         Expect(x.v = "ok" => /\ r.t = "ok" /\ r.s = (IF x.scheme = None THEN <<>> ELSE x.scheme) /\ r.a = Authority(x)
                              /\ r.c = (IF x.dom = None THEN <<>> ELSE <<x.dom[1] \o <<Colon>> \o DecText(x.port)>>), m, x)
    [] e.op = "enc" ->
         Expect(/\ r.t = "ok" /\ \A k \in 1..Len(r.b) : IsUnreserved(r.b[k]) \/ r.b[k] \in {Percent, 38, Colon, Slash, Question, 61, AtSign}
                /\ LET d == PctDecode(r.b) IN d.ok /\ d.b = e.b, m, "an encoding of the text")
    [] e.op = "dec" ->
         LET d == PctDecode(e.b) IN
         Expect(IF ~d.ok THEN r.t = "err" ELSE r.t = "ok" /\ (IsUtf8(d.b) => r.b = d.b), m, d)
=============================================================================

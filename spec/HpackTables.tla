---------------------------- MODULE HpackTables ----------------------------
(* RFC 7541 Appendix A and B; generated by tools/mkhpack.py *)
EXTENDS Integers, Sequences

(* code of symbol c is HuffBits[c + 1]; symbol 256 is EOS *)
HuffBits == <<
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1>>,
  <<0, 1, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1>>,
  <<0, 1, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 0, 1, 0>>,
  <<0, 1, 0, 1, 1, 0>>,
  <<0, 1, 0, 1, 1, 1>>,
  <<0, 1, 1, 0, 0, 0>>,
  <<0, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 1>>,
  <<0, 0, 0, 1, 0>>,
  <<0, 1, 1, 0, 0, 1>>,
  <<0, 1, 1, 0, 1, 0>>,
  <<0, 1, 1, 0, 1, 1>>,
  <<0, 1, 1, 1, 0, 0>>,
  <<0, 1, 1, 1, 0, 1>>,
  <<0, 1, 1, 1, 1, 0>>,
  <<0, 1, 1, 1, 1, 1>>,
  <<1, 0, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 0, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0>>,
  <<1, 0, 0, 0, 0, 1>>,
  <<1, 0, 1, 1, 1, 0, 1>>,
  <<1, 0, 1, 1, 1, 1, 0>>,
  <<1, 0, 1, 1, 1, 1, 1>>,
  <<1, 1, 0, 0, 0, 0, 0>>,
  <<1, 1, 0, 0, 0, 0, 1>>,
  <<1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 0, 1, 1, 1, 1>>,
  <<1, 1, 1, 0, 0, 0, 0>>,
  <<1, 1, 1, 0, 0, 0, 1>>,
  <<1, 1, 1, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1>>,
  <<0, 0, 0, 1, 1>>,
  <<1, 0, 0, 0, 1, 1>>,
  <<0, 0, 1, 0, 0>>,
  <<1, 0, 0, 1, 0, 0>>,
  <<0, 0, 1, 0, 1>>,
  <<1, 0, 0, 1, 0, 1>>,
  <<1, 0, 0, 1, 1, 0>>,
  <<1, 0, 0, 1, 1, 1>>,
  <<0, 0, 1, 1, 0>>,
  <<1, 1, 1, 0, 1, 0, 0>>,
  <<1, 1, 1, 0, 1, 0, 1>>,
  <<1, 0, 1, 0, 0, 0>>,
  <<1, 0, 1, 0, 0, 1>>,
  <<1, 0, 1, 0, 1, 0>>,
  <<0, 0, 1, 1, 1>>,
  <<1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 0, 1, 1, 0>>,
  <<1, 0, 1, 1, 0, 0>>,
  <<0, 1, 0, 0, 0>>,
  <<0, 1, 0, 0, 1>>,
  <<1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0>>,
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>>>

(* HuffTree[n][bit + 1]: next node, or -(symbol + 1) *)
HuffTree == <<
  <<67, 2>>,
  <<94, 3>>,
  <<105, 4>>,
  <<120, 5>>,
  <<145, 6>>,
  <<76, 7>>,
  <<124, 8>>,
  <<72, 9>>,
  <<78, 10>>,
  <<74, 11>>,
  <<12, 14>>,
  <<13, 103>>,
  <<-1, -37>>,
  <<128, 15>>,
  <<129, 16>>,
  <<99, 17>>,
  <<-124, 18>>,
  <<125, 19>>,
  <<151, 20>>,
  <<21, 26>>,
  <<200, 22>>,
  <<217, 23>>,
  <<24, 163>>,
  <<25, 162>>,
  <<-2, -136>>,
  <<168, 27>>,
  <<42, 28>>,
  <<192, 29>>,
  <<212, 30>>,
  <<230, 31>>,
  <<32, 46>>,
  <<33, 39>>,
  <<34, 36>>,
  <<-255, 35>>,
  <<-3, -4>>,
  <<37, 38>>,
  <<-5, -6>>,
  <<-7, -8>>,
  <<40, 53>>,
  <<41, 52>>,
  <<-9, -12>>,
  <<209, 43>>,
  <<44, 166>>,
  <<-240, 45>>,
  <<-10, -143>>,
  <<56, 47>>,
  <<64, 48>>,
  <<148, 49>>,
  <<-250, 50>>,
  <<51, 60>>,
  <<-11, -14>>,
  <<-13, -15>>,
  <<54, 55>>,
  <<-16, -17>>,
  <<-18, -19>>,
  <<57, 61>>,
  <<58, 59>>,
  <<-20, -21>>,
  <<-22, -24>>,
  <<-23, -257>>,
  <<62, 63>>,
  <<-25, -26>>,
  <<-27, -28>>,
  <<65, 66>>,
  <<-29, -30>>,
  <<-31, -32>>,
  <<86, 68>>,
  <<69, 83>>,
  <<144, 70>>,
  <<71, 82>>,
  <<-33, -38>>,
  <<73, 80>>,
  <<-34, -35>>,
  <<-125, 75>>,
  <<-36, -63>>,
  <<77, 81>>,
  <<-39, -43>>,
  <<-64, 79>>,
  <<-40, -44>>,
  <<-41, -42>>,
  <<-45, -60>>,
  <<-46, -47>>,
  <<84, 91>>,
  <<85, 90>>,
  <<-48, -52>>,
  <<87, 131>>,
  <<88, 89>>,
  <<-49, -50>>,
  <<-51, -98>>,
  <<-53, -54>>,
  <<92, 93>>,
  <<-55, -56>>,
  <<-57, -58>>,
  <<100, 95>>,
  <<139, 96>>,
  <<143, 97>>,
  <<98, 104>>,
  <<-59, -67>>,
  <<-61, -97>>,
  <<101, 133>>,
  <<102, 130>>,
  <<-62, -66>>,
  <<-65, -92>>,
  <<-68, -69>>,
  <<106, 113>>,
  <<107, 110>>,
  <<108, 109>>,
  <<-70, -71>>,
  <<-72, -73>>,
  <<111, 112>>,
  <<-74, -75>>,
  <<-76, -77>>,
  <<114, 117>>,
  <<115, 116>>,
  <<-78, -79>>,
  <<-80, -81>>,
  <<118, 119>>,
  <<-82, -83>>,
  <<-84, -85>>,
  <<121, 137>>,
  <<122, 123>>,
  <<-86, -87>>,
  <<-88, -90>>,
  <<-89, -91>>,
  <<126, 156>>,
  <<127, 149>>,
  <<-93, -196>>,
  <<-94, -127>>,
  <<-95, -126>>,
  <<-96, -99>>,
  <<132, 136>>,
  <<-100, -102>>,
  <<134, 135>>,
  <<-101, -103>>,
  <<-104, -105>>,
  <<-106, -112>>,
  <<138, 142>>,
  <<-107, -108>>,
  <<140, 141>>,
  <<-109, -110>>,
  <<-111, -113>>,
  <<-114, -119>>,
  <<-115, -118>>,
  <<-116, -117>>,
  <<146, 147>>,
  <<-120, -121>>,
  <<-122, -123>>,
  <<-128, -221>>,
  <<-209, 150>>,
  <<-129, -131>>,
  <<197, 152>>,
  <<153, 179>>,
  <<154, 159>>,
  <<-231, 155>>,
  <<-130, -133>>,
  <<157, 176>>,
  <<158, 205>>,
  <<-132, -163>>,
  <<160, 161>>,
  <<-134, -135>>,
  <<-137, -147>>,
  <<-138, -139>>,
  <<164, 165>>,
  <<-140, -141>>,
  <<-142, -144>>,
  <<167, 172>>,
  <<-145, -146>>,
  <<169, 186>>,
  <<170, 174>>,
  <<171, 173>>,
  <<-148, -150>>,
  <<-149, -160>>,
  <<-151, -152>>,
  <<175, 182>>,
  <<-153, -156>>,
  <<242, 177>>,
  <<178, 189>>,
  <<-154, -162>>,
  <<180, 184>>,
  <<181, 183>>,
  <<-155, -157>>,
  <<-158, -159>>,
  <<-161, -164>>,
  <<185, 191>>,
  <<-165, -170>>,
  <<187, 195>>,
  <<188, 190>>,
  <<-166, -167>>,
  <<-168, -173>>,
  <<-169, -175>>,
  <<-171, -174>>,
  <<193, 219>>,
  <<194, 235>>,
  <<-172, -207>>,
  <<196, 204>>,
  <<-176, -181>>,
  <<198, 236>>,
  <<199, 203>>,
  <<-177, -178>>,
  <<201, 207>>,
  <<202, 206>>,
  <<-179, -182>>,
  <<-180, -210>>,
  <<-183, -184>>,
  <<-185, -195>>,
  <<-186, -187>>,
  <<208, 211>>,
  <<-188, -190>>,
  <<210, 216>>,
  <<-189, -192>>,
  <<-191, -197>>,
  <<213, 225>>,
  <<214, 223>>,
  <<215, 222>>,
  <<-193, -194>>,
  <<-198, -232>>,
  <<218, 244>>,
  <<-199, -229>>,
  <<246, 220>>,
  <<221, 245>>,
  <<-200, -208>>,
  <<-201, -202>>,
  <<224, 229>>,
  <<-203, -206>>,
  <<238, 226>>,
  <<249, 227>>,
  <<-256, 228>>,
  <<-204, -205>>,
  <<-211, -214>>,
  <<231, 250>>,
  <<232, 240>>,
  <<233, 234>>,
  <<-212, -213>>,
  <<-215, -222>>,
  <<-216, -226>>,
  <<237, 243>>,
  <<-217, -218>>,
  <<239, 247>>,
  <<-219, -220>>,
  <<241, 248>>,
  <<-223, -224>>,
  <<-225, -227>>,
  <<-228, -230>>,
  <<-233, -234>>,
  <<-235, -236>>,
  <<-237, -238>>,
  <<-239, -241>>,
  <<-242, -245>>,
  <<-243, -244>>,
  <<251, 254>>,
  <<252, 253>>,
  <<-246, -247>>,
  <<-248, -249>>,
  <<255, 256>>,
  <<-251, -252>>,
  <<-253, -254>>>>

StaticTable == <<
  <<<<58, 97, 117, 116, 104, 111, 114, 105, 116, 121>>, <<>>>>,
  <<<<58, 109, 101, 116, 104, 111, 100>>, <<71, 69, 84>>>>,
  <<<<58, 109, 101, 116, 104, 111, 100>>, <<80, 79, 83, 84>>>>,
  <<<<58, 112, 97, 116, 104>>, <<47>>>>,
  <<<<58, 112, 97, 116, 104>>, <<47, 105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>>>,
  <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>>>,
  <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112, 115>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 48>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 52>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 54>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<51, 48, 52>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<52, 48, 48>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<52, 48, 52>>>>,
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<53, 48, 48>>>>,
  <<<<97, 99, 99, 101, 112, 116, 45, 99, 104, 97, 114, 115, 101, 116>>, <<>>>>,
  <<<<97, 99, 99, 101, 112, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<103, 122, 105, 112, 44, 32, 100, 101, 102, 108, 97, 116, 101>>>>,
  <<<<97, 99, 99, 101, 112, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101>>, <<>>>>,
  <<<<97, 99, 99, 101, 112, 116, 45, 114, 97, 110, 103, 101, 115>>, <<>>>>,
  <<<<97, 99, 99, 101, 112, 116>>, <<>>>>,
  <<<<97, 99, 99, 101, 115, 115, 45, 99, 111, 110, 116, 114, 111, 108, 45, 97, 108, 108, 111, 119, 45, 111, 114, 105, 103, 105, 110>>, <<>>>>,
  <<<<97, 103, 101>>, <<>>>>,
  <<<<97, 108, 108, 111, 119>>, <<>>>>,
  <<<<97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>, <<>>>>,
  <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 111, 99, 97, 116, 105, 111, 110>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 114, 97, 110, 103, 101>>, <<>>>>,
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>, <<>>>>,
  <<<<99, 111, 111, 107, 105, 101>>, <<>>>>,
  <<<<100, 97, 116, 101>>, <<>>>>,
  <<<<101, 116, 97, 103>>, <<>>>>,
  <<<<101, 120, 112, 101, 99, 116>>, <<>>>>,
  <<<<101, 120, 112, 105, 114, 101, 115>>, <<>>>>,
  <<<<102, 114, 111, 109>>, <<>>>>,
  <<<<104, 111, 115, 116>>, <<>>>>,
  <<<<105, 102, 45, 109, 97, 116, 99, 104>>, <<>>>>,
  <<<<105, 102, 45, 109, 111, 100, 105, 102, 105, 101, 100, 45, 115, 105, 110, 99, 101>>, <<>>>>,
  <<<<105, 102, 45, 110, 111, 110, 101, 45, 109, 97, 116, 99, 104>>, <<>>>>,
  <<<<105, 102, 45, 114, 97, 110, 103, 101>>, <<>>>>,
  <<<<105, 102, 45, 117, 110, 109, 111, 100, 105, 102, 105, 101, 100, 45, 115, 105, 110, 99, 101>>, <<>>>>,
  <<<<108, 97, 115, 116, 45, 109, 111, 100, 105, 102, 105, 101, 100>>, <<>>>>,
  <<<<108, 105, 110, 107>>, <<>>>>,
  <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<>>>>,
  <<<<109, 97, 120, 45, 102, 111, 114, 119, 97, 114, 100, 115>>, <<>>>>,
  <<<<112, 114, 111, 120, 121, 45, 97, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 101>>, <<>>>>,
  <<<<112, 114, 111, 120, 121, 45, 97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>, <<>>>>,
  <<<<114, 97, 110, 103, 101>>, <<>>>>,
  <<<<114, 101, 102, 101, 114, 101, 114>>, <<>>>>,
  <<<<114, 101, 102, 114, 101, 115, 104>>, <<>>>>,
  <<<<114, 101, 116, 114, 121, 45, 97, 102, 116, 101, 114>>, <<>>>>,
  <<<<115, 101, 114, 118, 101, 114>>, <<>>>>,
  <<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<>>>>,
  <<<<115, 116, 114, 105, 99, 116, 45, 116, 114, 97, 110, 115, 112, 111, 114, 116, 45, 115, 101, 99, 117, 114, 105, 116, 121>>, <<>>>>,
  <<<<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<>>>>,
  <<<<117, 115, 101, 114, 45, 97, 103, 101, 110, 116>>, <<>>>>,
  <<<<118, 97, 114, 121>>, <<>>>>,
  <<<<118, 105, 97>>, <<>>>>,
  <<<<119, 119, 119, 45, 97, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 101>>, <<>>>>>>
=============================================================================

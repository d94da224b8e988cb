------------------------------- MODULE Music ---------------------------------
(***************************************************************************)
(* Notes and colours.                                                      *)
(***************************************************************************)
LOCAL INSTANCE Vals

\* 100000 * 440 * 2^((m - 69) / 12), for m = 116 .. 127
FreqTop == <<664487516, 704000000, 745862018, 790213282, 837201809, 886984419, 939727257, 995606348, 1054808182, 1117530341, 1183982153, 1254385395>>
FreqOk(m, f) == \* f is the frequency in 1/100000 Hz
  LET d == (127 - m) \div 12  t == FreqTop[m + 12 * d - 115] IN Abs(t - f * Pow2(d)) <= 3 * Pow2(d)
SharpNames == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
FlatNames == <<"C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B">>
NoteOk(m, nat, r) == \* r: what is read off the note
  /\ Len(r) = 1 /\ r[1].m = m /\ r[1].nat = nat /\ FreqOk(m, r[1].f)
  /\ r[1].sharp = SharpNames[(m % 12) + 1] \o IntStr((m \div 12) - 1)
  /\ r[1].flat = FlatNames[(m % 12) + 1] \o IntStr((m \div 12) - 1)
MidiOk(v, nat, r) == IF v <= 127 THEN NoteOk(v, nat, r) ELSE r = <<>>
NameOk(s, r) == LET q == NoteName(s) IN IF q.midi < 0 THEN r = <<>> ELSE NoteOk(q.midi, q.nat, r)

\* a colour component: rounded (where a tie could go either way, either)
Unit(n, k) == IF n < 0 THEN <<0, 0>> ELSE IF n > Pow2(k) THEN <<1, 0>> ELSE <<n, k>>     \* clamped to 0..1, as numerator and log2 of denominator
CompOk(n, q, r) == Abs(2 * r * q - 2 * 255 * n) <= q + (q \div 400) + 1                   \* r = round(255 * n / q)
HsvaOk(h, s0, v0, a0, r) ==
  LET s == Unit(s0.n, s0.k)  v == Unit(v0.n, v0.k)  a == Unit(a0.n, a0.k)
      D == 60 * Pow2(h.k)  hn == h.n % (6 * D)
      Q == Pow2(s[2]) * Pow2(v[2]) * D
      c == v[1] * s[1] * D                                 \* all in units of 1/Q
      x == v[1] * s[1] * (D - Abs((hn % (2 * D)) - D))
      m == v[1] * Pow2(s[2]) * D - c
      sec == hn \div D
      p == CASE sec = 0 -> <<c, x, 0>> [] sec = 1 -> <<x, c, 0>> [] sec = 2 -> <<0, c, x>> [] sec = 3 -> <<0, x, c>> [] sec = 4 -> <<x, 0, c>> [] OTHER -> <<c, 0, x>>
  IN Len(r) = 4 /\ CompOk(p[1] + m, Q, r[1]) /\ CompOk(p[2] + m, Q, r[2]) /\ CompOk(p[3] + m, Q, r[3]) /\ CompOk(a[1], Pow2(a[2]), r[4])
\* c: a colour; r.h in 1/1000 degree, r.s r.v r.a in millionths; r.back: converted back
RgbOk(c, r) ==
  LET mx == Max2(c[1], Max2(c[2], c[3]))  mn == Min2(c[1], Min2(c[2], c[3]))  d == mx - mn
      w == IF c[1] = mx THEN (IF c[2] >= c[3] THEN c[2] - c[3] ELSE c[2] - c[3] + 6 * d) ELSE IF c[2] = mx THEN c[3] - c[1] + 2 * d ELSE c[1] - c[2] + 4 * d
  IN /\ (IF d = 0 THEN r.h = 0 ELSE Abs(r.h * d - 60000 * w) <= 2 * d)
     /\ (IF mx = 0 THEN r.s = 0 ELSE Abs(r.s * mx - 1000000 * d) <= 2 * mx)
     /\ Abs(r.v * 255 - 1000000 * mx) <= 600 /\ Abs(r.a * 255 - 1000000 * c[4]) <= 600
     /\ r.back = c
=============================================================================

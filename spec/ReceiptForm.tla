----------------------------- MODULE ReceiptForm -----------------------------
(***************************************************************************)
(* The four representations of a receipt, character by character.          *)
(*                                                                         *)
(* A text is the sequence of its UTF-8 bytes.  Read(rep, t) tells which    *)
(* rules of the prescribed form the text breaks (named after the exception *)
(* reporting it; none: it is a receipt) and what it states; Write(rep, v)  *)
(* is the text stating v.  Everything is written from the published form,  *)
(* with quantifiers over positions instead of a scanner.                   *)
(*                                                                         *)
(*   JWS   base64url(header) . base64url(payload) . base64url(signature)   *)
(*   QR    payload _ base64(signature)                                     *)
(*   OCR   as QR, but counter, chaining value and signature in base32      *)
(*   CSV   as QR, without the leading _ and with ; for _                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Reps == {"jws", "qr", "ocr", "csv"}

Header == <<123, 34, 97, 108, 103, 34, 58, 34, 69, 83, 50, 53, 54, 34, 125>>   \* {"alg":"ES256"}
TRA == <<84, 82, 65>>
STO == <<83, 84, 79>>
FailMark == <<83, 105, 99, 104, 101, 114, 104, 101, 105, 116, 115, 101, 105, 110, 114,
    105, 99, 104, 116, 117, 110, 103, 32, 97, 117, 115, 103, 101, 102, 97,
    108, 108, 101, 110>>   \* Sicherheitseinrichtung ausgefallen
AT0 == <<65, 84, 48>>
R1 == <<82, 49>>

Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
HexDigit(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
Space(c) == c \in (9..13) \cup (28..32)

All(s, P(_)) == \A i \in DOMAIN s : P(s[i])
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, k) == SubSeq(s, k, Len(s))

\* (TLC computes the elements of a function anew at every use otherwise)
Made(s) == <<>> \o s

Split(s, sep) ==
  LET P == {i \in DOMAIN s : s[i] = sep}
      n == Cardinality(P)
      Q == SetToSortSeq(P, <)
      At(k) == IF k = 0 THEN 0 ELSE IF k = n + 1 THEN Len(s) + 1 ELSE Q[k]
  IN Made([k \in 1..(n + 1) |-> SubSeq(s, At(k - 1) + 1, At(k) - 1)])

Strip(s) ==
  LET P == {i \in DOMAIN s : ~Space(s[i])} IN
  IF P = {} THEN <<>>
  ELSE SubSeq(s, CHOOSE i \in P : \A j \in P : i <= j, CHOOSE i \in P : \A j \in P : i >= j)

RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<sep>> \o Join(Tail(ss), sep)

----------------------------------------------------------------------------
(* UTF-8 *)

Cont(c) == c \in 128..191
Needs(c) == IF c \in 194..223 THEN 1 ELSE IF c \in 224..239 THEN 2
            ELSE IF c \in 240..244 THEN 3 ELSE 0
Utf8(b) ==
  \A i \in DOMAIN b :
    \/ b[i] < 128
    \/ /\ Needs(b[i]) > 0
       /\ i + Needs(b[i]) <= Len(b)
       /\ \A j \in 1..Needs(b[i]) : Cont(b[i + j])
       /\ b[i] = 224 => b[i + 1] >= 160
       /\ b[i] = 237 => b[i + 1] <= 159
       /\ b[i] = 240 => b[i + 1] >= 144
       /\ b[i] = 244 => b[i + 1] <= 143
    \/ /\ Cont(b[i])
       /\ \E j \in 1..3 : /\ i - j >= 1 /\ Needs(b[i - j]) >= j
                          /\ \A k \in 1..(j - 1) : Cont(b[i - k])

----------------------------------------------------------------------------
(* base64 and base32 *)

Std == <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82,
    83, 84, 85, 86, 87, 88, 89, 90, 97, 98, 99, 100, 101, 102, 103, 104,
    105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118,
    119, 120, 121, 122, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 43, 47>>
Url == <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82,
    83, 84, 85, 86, 87, 88, 89, 90, 97, 98, 99, 100, 101, 102, 103, 104,
    105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118,
    119, 120, 121, 122, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 45, 95>>
B32 == <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82,
    83, 84, 85, 86, 87, 88, 89, 90, 50, 51, 52, 53, 54, 55>>
\* value of the character c at c + 1, -1 if it has none
Inv(A) == Made([k \in 1..256 |-> IF \E i \in DOMAIN A : A[i] = k - 1
                                THEN (CHOOSE i \in DOMAIN A : A[i] = k - 1) - 1 ELSE -1])
StdVal == Inv(Std)
UrlVal == Inv(Url)
B32Val == Inv(B32)

Bad == <<-1>>

\* unpadded: groups of 6 bits, unused bits zero
Dec64(s, V) ==
  LET n == Len(s)
      v(i) == V[s[i + 1] + 1]          \* i from 0
      bytes == (n * 6) \div 8
      Byte(k) == LET i == (8 * k) \div 6  off == (8 * k) % 6 IN
                 ((v(i) * 64 + v(i + 1)) \div (2 ^ (4 - off))) % 256
      unused == (n * 6) % 8
  IN IF n % 4 = 1 \/ \E i \in DOMAIN s : V[s[i] + 1] = -1 THEN Bad
     ELSE IF n > 0 /\ v(n - 1) % (2 ^ unused) # 0 THEN Bad
     ELSE Made([k \in 1..bytes |-> Byte(k - 1)])

Pads(s) == Cardinality({i \in DOMAIN s : \A j \in i..Len(s) : s[j] = 61})
Unpadded(s) == SubSeq(s, 1, Len(s) - Pads(s))

B64Dec(s) == IF Len(s) % 4 # 0 \/ Pads(s) > 2 THEN Bad ELSE Dec64(Unpadded(s), StdVal)
UrlDec(s) == Dec64(s, UrlVal)

B32Dec(s) ==
  LET u == Unpadded(s)
      n == Len(u)
      v(i) == IF i < n THEN B32Val[u[i + 1] + 1] ELSE 0
      bytes == (n * 5) \div 8
      Byte(k) == LET i == (8 * k) \div 5  off == (8 * k) % 5 IN
                 ((v(i) * 1024 + v(i + 1) * 32 + v(i + 2)) \div (2 ^ (7 - off))) % 256
      unused == (n * 5) % 8
  IN IF Len(s) % 8 # 0 \/ Pads(s) \notin {0, 1, 3, 4, 6} THEN Bad
     ELSE IF \E i \in DOMAIN u : B32Val[u[i] + 1] = -1 THEN Bad
     ELSE IF n > 0 /\ v(n - 1) % (2 ^ unused) # 0 THEN Bad
     ELSE Made([k \in 1..bytes |-> Byte(k - 1)])

Enc64(b, A) ==
  LET n == Len(b)
      x(k) == IF k < n THEN b[k + 1] ELSE 0
      chars == (n * 8 + 5) \div 6
      Char(i) == LET k == (6 * i) \div 8  off == (6 * i) % 8 IN
                 ((x(k) * 256 + x(k + 1)) \div (2 ^ (10 - off))) % 64
  IN Made([i \in 1..chars |-> A[Char(i - 1) + 1]])
Pad(s, n) == s \o [i \in 1..((n - (Len(s) % n)) % n) |-> 61]
B64Enc(b) == Pad(Enc64(b, Std), 4)
UrlEnc(b) == Enc64(b, Url)
B32Enc(b) ==
  LET n == Len(b)
      x(k) == IF k < n THEN b[k + 1] ELSE 0
      chars == (n * 8 + 4) \div 5
      Char(i) == LET k == (5 * i) \div 8  off == (5 * i) % 8 IN
                 ((x(k) * 256 + x(k + 1)) \div (2 ^ (11 - off))) % 32
  IN Pad(Made([i \in 1..chars |-> B32[Char(i - 1) + 1]]), 8)

----------------------------------------------------------------------------
(* The fields *)

Number(s) == Len(s) > 0 /\ All(s, Digit)
Val2(s) == (s[1] - 48) * 10 + (s[2] - 48)

AlgForm(s) == Len(s) >= 2 /\ s[1] = 82 /\ s[2] \in 49..57 /\ All(From(s, 2), Digit)
ZdaForm(s) == \/ s = AT0
              \/ /\ Len(s) >= 3 /\ Upper(s[1]) /\ Upper(s[2]) /\ s[3] \in 49..57
                 /\ All(From(s, 3), Digit)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
TimeForm(s) ==   \* YYYY-MM-DDThh:mm:ss
  /\ Len(s) = 19
  /\ \A i \in (1..19) \ {5, 8, 11, 14, 17} : Digit(s[i])
  /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58
  /\ LET y == Val2(SubSeq(s, 1, 2)) * 100 + Val2(SubSeq(s, 3, 4))
         m == Val2(SubSeq(s, 6, 7))
         d == Val2(SubSeq(s, 9, 10)) IN
     /\ y >= 1 /\ m \in 1..12 /\ d \in 1..DaysIn(y, m)
     /\ Val2(SubSeq(s, 12, 13)) <= 23
     /\ Val2(SubSeq(s, 15, 16)) <= 59
     /\ Val2(SubSeq(s, 18, 19)) <= 59

SumForm(s) ==
  LET u == IF Begins(s, <<45>>) THEN Tail(s) ELSE s
      n == Len(u) IN
  /\ n >= 4 /\ u[n - 2] = 44 /\ Digit(u[n - 1]) /\ Digit(u[n])
  /\ Number(SubSeq(u, 1, n - 3))
  /\ n > 4 => u[1] # 48

IdForm(s) == Len(s) > 0          \* the separator cannot occur in it

AlNum(c) == Digit(c) \/ Upper(c) \/ Lower(c)
SerialNo(s) == LET u == IF Begins(s, <<45>>) THEN Tail(s) ELSE s IN
               Len(u) > 0 /\ All(u, HexDigit)
UpNum(c) == Digit(c) \/ Upper(c)
KeyIdBase(s) ==
  /\ Len(s) >= 3 /\ s[2] = 58
  /\ LET r == From(s, 3) IN
     CASE s[1] = 83 -> Len(r) = 9 /\ Number(r)                     \* S: tax number
       [] s[1] = 71 -> Len(r) = 13 /\ Number(r)                    \* G: GLN
       [] s[1] = 85 -> Len(r) \in 1..14 /\ All(r, UpNum)           \* U: UID
       [] OTHER -> FALSE
KeyId(s) == LET P == Split(s, 45) IN
            \/ Len(P) = 1 /\ KeyIdBase(P[1])
            \/ Len(P) = 2 /\ KeyIdBase(P[1]) /\ Len(P[2]) > 0 /\ All(P[2], AlNum)

Malf == "MalformedReceiptException"
If(c, e) == IF c THEN {} ELSE {e}

CtrForm(b) == b # Bad /\ (b \in {TRA, STO} \/ Len(b) \in 5..16)
ChainForm(b) == b # Bad /\ Len(b) = 8

\* v: what the twelve elements state, counter, chain and signature decoded
FieldFaults(v) ==
       If(ZdaForm(v.zda), Malf)
  \cup If(IdForm(v.reg), Malf) \cup If(IdForm(v.id), Malf)
  \cup If(TimeForm(v.ts), Malf)
  \cup UNION {If(SumForm(v.sums[i]), Malf) : i \in 1..5}
  \cup If(CtrForm(v.ctr), Malf) \cup If(ChainForm(v.chain), Malf)
  \cup If(v.sig # Bad, Malf)
  \cup If(SerialNo(v.serial) \/ KeyId(v.serial),
          IF v.serial = <<>> THEN Malf ELSE "CertSerialInvalidException")
  \cup (IF (SerialNo(v.serial) /\ v.zda = AT0) \/ (KeyId(v.serial) /\ v.zda # AT0)
        THEN {"InvalidCertificateProviderException"} ELSE {})
  \cup If(AlgForm(v.alg), Malf)
  \cup (IF AlgForm(v.alg) /\ v.alg # R1 THEN {"UnknownAlgorithmException"} ELSE {})

Broken(e) == [faults |-> e, val |-> [alg |-> <<>>]]

\* e: the elements, first the empty one before the leading separator
Elements(e, ctr, chain, sig, extra) ==
  LET az == Split(e[2], 45) IN
  IF Len(az) # 2 THEN Broken({Malf} \cup extra)
  ELSE LET v == [alg |-> az[1], zda |-> az[2], reg |-> e[3], id |-> e[4], ts |-> e[5],
                 sums |-> SubSeq(e, 6, 10), ctr |-> ctr, serial |-> e[12],
                 chain |-> chain, sig |-> sig]
       IN [faults |-> FieldFaults(v) \cup extra, val |-> v]

ReadQR(e) ==
  IF Len(e) # 14 \/ e[1] # <<>> THEN Broken({Malf})
  ELSE Elements(e, B64Dec(e[11]), B64Dec(e[13]), B64Dec(e[14]), {})

ReadOCR(e) ==
  IF Len(e) # 14 \/ e[1] # <<>> THEN Broken({Malf})
  ELSE Elements(e, B32Dec(e[11]), B32Dec(e[13]), B32Dec(e[14]), {})

ReadCSV(t) ==
  IF 95 \in {t[i] : i \in DOMAIN t} THEN Broken({Malf})
  ELSE LET s == Split(t, 59) IN ReadQR(<< <<>> >> \o [i \in DOMAIN s |-> Strip(s[i])])

ReadJWS(t) ==
  LET s == Split(t, 46) IN
  IF Len(s) # 3 THEN Broken({Malf})
  ELSE LET h == UrlDec(s[1])  p == UrlDec(s[2])
           x == IF h = Bad \/ ~Utf8(h) THEN {Malf}
                ELSE IF h # Header THEN {"AlgorithmMismatchException"} ELSE {} IN
       IF p = Bad \/ ~Utf8(p) THEN Broken({Malf} \cup x)
       ELSE LET e == Split(p, 95) IN
            IF Len(e) # 13 \/ e[1] # <<>> THEN Broken({Malf} \cup x)
            ELSE Elements(e, B64Dec(e[11]), B64Dec(e[13]), UrlDec(s[3]), x)

Read(rep, t) == CASE rep = "jws" -> ReadJWS(t)
                  [] rep = "qr"  -> ReadQR(Split(t, 95))
                  [] rep = "ocr" -> ReadOCR(Split(t, 95))
                  [] rep = "csv" -> ReadCSV(t)

----------------------------------------------------------------------------
(* The texts of a receipt *)

Fields(v, Enc(_)) ==
  << <<>>, v.alg \o <<45>> \o v.zda, v.reg, v.id, v.ts >> \o v.sums
  \o << Enc(v.ctr), v.serial, Enc(v.chain) >>
Payload(v) == Join(Fields(v, B64Enc), 95)

Write(rep, v) ==
  CASE rep = "jws" -> UrlEnc(Header) \o <<46>> \o UrlEnc(Payload(v)) \o <<46>> \o UrlEnc(v.sig)
    [] rep = "qr"  -> Join(Append(Fields(v, B64Enc), B64Enc(v.sig)), 95)
    [] rep = "ocr" -> Join(Append(Fields(v, B32Enc), B32Enc(v.sig)), 95)
    [] rep = "csv" -> Join(Tail(Append(Fields(v, B64Enc), B64Enc(v.sig))), 59)

KindOf(v) == IF v.ctr = TRA THEN "DUM" ELSE IF v.ctr = STO THEN "REV" ELSE "STD"
Failed(v) == v.sig = FailMark
ZeroSum(s) == \A i \in DOMAIN s : s[i] \in {45, 48, 44}
NullTurnover(v) == \A i \in 1..5 : ZeroSum(v.sums[i])
=============================================================================

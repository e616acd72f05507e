------------------------------ MODULE GenForm -------------------------------
(***************************************************************************)
(* Receipt texts to try: in every representation, one or two elements take *)
(* one of the listed contents. The verdict expected by the list must agree *)
(* with what ReceiptForm reads from the text (checked by FormJudge).       *)
(* Tokens: {hex} is a character, <...> an encoded byte string or a change  *)
(* of the encoded text, see harness/forms.py.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Parts, Two, Emit

VARIABLES p, done
vars == <<p, done>>

Good(part) ==
  CASE part = "alg" -> {"R1"}
    [] part = "zda" -> {"AT1", "AT10", "DE3", "ZZ99", "AT100"}
    [] part = "reg" -> {"R", "K 1", "{e4}{20ac}", "{1f600}", "a.b-c", "=", "1", "x{a0}x"}
    [] part = "id"  -> {"1", "0", "a{df}", "{4e2d}{6587}", "x=", "-", "1.2", "{22}{5c}"}
    [] part = "ts"  -> {"2016-02-29T00:00:00", "2000-02-29T23:59:59", "0001-01-01T00:00:00",
                        "9999-12-31T23:59:59", "2017-04-30T09:08:07"}
    [] part = "sum" -> {"0,00", "-0,00", "9,99", "-1,05", "10,00", "123456789012,34",
                        "-99999999999999999999,99", "0,01"}
    [] part = "ctr" -> {"<len5>", "<len6>", "<len7>", "<len8>", "<len12>", "<len15>", "<len16>",
                        "<TRA>", "<STO>"}
    [] part = "chain" -> {"<len8>"}
    [] part = "sig" -> {"<len64>", "<len63>", "<len1>", "<len65>", "<fail>"}
    [] part = "serial" -> {"0", "1f", "1F", "-1f", "123", "-9", "00a", "deadbeefdeadbeefdeadbeef",
                           "@U:ATU12345678", "@U:A", "@U:ATU12345678-K0", "@U:12345678901234",
                           "@S:123456789", "@S:123456789-x", "@G:1234567890123", "@G:1234567890123-0Zz"}
    [] part = "head" -> {"<same>"}
    [] part = "shape" -> {"<same>"}

Unknown == {"R2", "R10", "R99"}
Poor(part) ==
  CASE part = "alg" -> {"", "r1", "R", "R0", "R01", "1", "1R", "RR1", "R1x", "R{661}", "R+1",
                        "R1{a}", " R1", "R 1"} \cup Unknown
    [] part = "zda" -> {"", "AT", "AT0x", "AT01", "at1", "A1", "ATU1", "AT1x", "AT-1", "AT{661}",
                        "AT00", "AT1{a}", "{c4}T1", "A{df}1", " AT1", "DE0", "TT0", "AA0"}
    [] part = "reg" -> {""}
    [] part = "id"  -> {""}
    [] part = "ts"  -> {"", "2017-02-29T00:00:00", "1900-02-29T00:00:00", "2016-13-01T00:00:00",
                        "2016-00-01T00:00:00", "2016-01-00T00:00:00", "2016-04-31T00:00:00",
                        "2016-01-01T24:00:00", "2016-01-01T00:60:00", "2016-01-01T00:00:60",
                        "0000-01-01T00:00:00", "2016-1-01T00:00:00", "2016-01-01 00:00:00",
                        "2016-01-01t00:00:00", "2016-01-01T00:00:00Z", "2016-01-01T00:00",
                        "16-01-01T00:00:00", "2016-01-01T0:00:00", "+016-01-01T00:00:00",
                        "2016-01-01T00:00:00.0", "2016-01-01T00:00:0{660}", "2016-01-01T00:00:00{a}",
                        "2016-01-01T00:00: 1", "2016-01-01T{a0}0:00:00", "01-01-2016T00:00:00"}
    [] part = "sum" -> {"", "0", "0,0", "0,000", "00,00", "01,00", "-01,00", "0.00", ",00", "-,00",
                        "+1,00", "--1,00", "1,0a", "1 000,00", "1.000,00", "1e1,00", "{661},00",
                        "0,{660}0", "1,00{a}", "- 1,00", "0,-1", "1_0,00", "0x1,00", "inf", "nan", "000,00"}
    [] part = "ctr" -> {"<len0>", "<len1>", "<len2>", "<len3>", "<len4>", "<len17>", "<len18>", "<len33>",
                        "<tra>", "<STOx>", "<nopad>", "<morepad>", "<bits>", "<illegal>", "<space>",
                        "<inner>", "<cut>", "<padonly>", "<newline>"}
    [] part = "chain" -> {"<len0>", "<len1>", "<len7>", "<len9>", "<len16>", "<len32>", "<nopad>", "<morepad>",
                          "<bits>", "<illegal>", "<space>", "<inner>", "<cut>", "<padonly>", "<newline>"}
    [] part = "sig" -> {"<nopad>", "<morepad>", "<bits>", "<illegal>", "<space>", "<inner>", "<cut>",
                        "<otheralphabet>", "<newline>"}
    [] part = "serial" -> {"", "-", "--1", "1-", "g", "0x1", "+1", "1 1", "1-K0", "-1-1", "1{a}", "{661}", "{ff21}",
                           "U:ATU12345678", "S:123456789", "G:1234567890123",   \* in an open system
                           "@1", "@1f", "@-1f",                             \* in a closed one
                           "@U:", "@U:123456789012345", "@U:atu1", "@u:ATU1", "@U:AT U1", "@U:{c4}",
                           "@S:12345678", "@S:1234567890", "@S:12345678a", "@S:12345678{661}", "@G:123456789012",
                           "@G:12345678901234", "@T:123456789", "@-U:ATU1", "@U:ATU1-", "@U:ATU1-K-0",
                           "@U:ATU1-K 0", "@U:ATU1-{c4}", "@ATU12345678", "@U:ATU1{a}", "@U-ATU1", "@-"}
    [] part = "head" -> {"", "{}", "<none>", "<hs256>", "<order>", "<spaced>", "<notutf8>", "<pad>", "<bits>",
                         "<illegal>", "<newline>", "<typ>", "<lead>", "<tail>", "<line>", "<bom>"}
    [] part = "shape" -> {"<nolead>", "<lead>", "<drop>", "<dup>", "<extra>", "<trail>", "<joined>", "<nodash>",
                          "<twodash>", "<empty>", "<wrongsep>", "<onlyhead>", "<moresegs>", "<lesssegs>",
                          "<payloadpad>", "<payloadbits>", "<payloadutf8>", "<payloadillegal>", "<sepin>"}

OnlyJws == {"head"}
JwsShapes == {"<onlyhead>", "<moresegs>", "<lesssegs>", "<payloadpad>", "<payloadbits>", "<payloadutf8>",
              "<payloadillegal>"}
NotJws(part, tok) == part = "sig" /\ tok = "<nopad>"

Tok(part) == Good(part) \cup Poor(part)
Applies(rep, part, tok) ==
  /\ rep = "jws" => ~NotJws(part, tok)
  /\ rep # "jws" => part \notin OnlyJws /\ ~(part = "shape" /\ tok \in JwsShapes)

Expect(part, tok) ==
  IF tok \in Good(part) THEN "ok"
  ELSE IF part = "alg" /\ tok \in Unknown THEN "UnknownAlgorithmException"
  ELSE "bad"

Reps == {"jws", "qr", "ocr", "csv"}
Choices == UNION {{<<q, t>> : t \in Tok(q)} : q \in Parts}

Plan(rep, cs) == [rep |-> rep, set |-> cs,
                  ok |-> \A i \in DOMAIN cs : cs[i][2] \in Good(cs[i][1])]

Init == /\ done = FALSE
        /\ \E rep \in Reps, x \in Choices :
             /\ Applies(rep, x[1], x[2])
             /\ \/ ~Two /\ p = Plan(rep, <<x>>)
                \/ Two /\ \E y \in Choices : /\ y[1] # x[1] /\ Applies(rep, y[1], y[2])
                                             /\ y[2] \in Good(y[1])
                                             /\ p = Plan(rep, <<x, y>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED p
        /\ IF Emit THEN PrintT("PLAN " \o ToJson(p)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

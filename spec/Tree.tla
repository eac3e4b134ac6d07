-------------------------------- MODULE Tree --------------------------------
(* Uniform syntax trees.  A node is                                          *)
(*    [t |-> node type, a |-> attributes (string to string),                 *)
(*     k |-> children (role to sequence of nodes)]                           *)
(* An empty slot inside a list (e.g. an omitted tuple component) is a node   *)
(* of type "null".  A path is a sequence of <<role, index>> steps.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Node(t, a, k) == [t |-> t, a |-> a, k |-> k]
NoA == <<>>
NoK == <<>>

A(n, x)   == IF x \in DOMAIN n.a THEN n.a[x] ELSE ""
Is(n, x)  == A(n, x) = "true"
Has(n, r) == r \in DOMAIN n.k
K(n, r)   == IF r \in DOMAIN n.k THEN n.k[r] ELSE <<>>
One(n, r) == K(n, r)[1]

RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n.k[p[1][1]][p[1][2]], Tail(p))

RECURSIVE Put(_, _, _)
Put(n, p, m) ==
  IF p = <<>> THEN m
  ELSE LET r == p[1][1]
           i == p[1][2]
       IN  Node(n.t, n.a, [n.k EXCEPT ![r] = [@ EXCEPT ![i] = Put(@, Tail(p), m)]])

RECURSIVE Paths(_)
Paths(n) ==
  {<<>>} \cup
  UNION { UNION { { << <<r, i>> >> \o p : p \in Paths(n.k[r][i]) }
                  : i \in 1..Len(n.k[r]) } : r \in DOMAIN n.k }

Prefix(p, j) == SubSeq(p, 1, j)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
LastStep(p) == p[Len(p)]

\* A changed node is built anew, so that remembered tokens (member m) are not kept.
SetKid(n, r, seq) == Node(n.t, n.a, (r :> seq) @@ n.k)
SetA(n, x, v) == Node(n.t, (x :> v) @@ n.a, n.k)

SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
ReplaceIdx(s, i, x) == [s EXCEPT ![i] = x]

-----------------------------------------------------------------------------
(* Decimal numerals as strings (TLC's integers are too small).               *)
Dig == <<"0","1","2","3","4","5","6","7","8","9">>
Ch(s, i) == SubSeq(s, i, i)
IsDigit(c) == \E d \in 1..10 : Dig[d] = c
DigVal(c) == (CHOOSE d \in 1..10 : Dig[d] = c) - 1
RECURSIVE AllDigits(_, _)
AllDigits(s, i) == IF i > Len(s) THEN TRUE ELSE IsDigit(Ch(s, i)) /\ AllDigits(s, i + 1)
IsNat(s) == Len(s) > 0 /\ AllDigits(s, 1)

RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LexLE(a, b, i + 1)
  ELSE DigVal(Ch(a, i)) < DigVal(Ch(b, i))
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s
\* a <= b for naturals written in decimal without leading zeros
NatLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b, 1))

RECURSIVE IncFrom(_, _)
IncFrom(s, i) ==   \* increment the prefix of s of length i
  IF i = 0 THEN "1"
  ELSE IF Ch(s, i) = "9" THEN IncFrom(s, i - 1) \o "0"
  ELSE SubSeq(s, 1, i - 1) \o Dig[DigVal(Ch(s, i)) + 2]
RECURSIVE DecFrom(_, _)
DecFrom(s, i) ==   \* decrement a positive numeral
  IF Ch(s, i) = "0" THEN DecFrom(s, i - 1) \o "9"
  ELSE SubSeq(s, 1, i - 1) \o Dig[DigVal(Ch(s, i))]

Neg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
Mag(s) == IF Neg(s) THEN SubSeq(s, 2, Len(s)) ELSE s
\* signed decimal numerals
Succ(s) == IF Neg(s) THEN (LET m == StripZ(DecFrom(Mag(s), Len(Mag(s)))) IN IF m = "0" THEN "0" ELSE "-" \o m)
           ELSE IncFrom(s, Len(s))
Pred(s) == IF Neg(s) THEN "-" \o IncFrom(Mag(s), Len(Mag(s)))
           ELSE IF s = "0" THEN "-1"
           ELSE StripZ(DecFrom(s, Len(s)))
NumLE(a, b) ==   \* a <= b for signed numerals
  IF Neg(a) THEN (IF Neg(b) THEN NatLE(Mag(b), Mag(a)) ELSE TRUE)
  ELSE (~Neg(b) /\ NatLE(a, b))
(* Powers of two for the widths of integer types: 2^(8k) and 2^(8k - 1), k in 1..32.  *)
Pow8 == <<
  "256",
  "65536",
  "16777216",
  "4294967296",
  "1099511627776",
  "281474976710656",
  "72057594037927936",
  "18446744073709551616",
  "4722366482869645213696",
  "1208925819614629174706176",
  "309485009821345068724781056",
  "79228162514264337593543950336",
  "20282409603651670423947251286016",
  "5192296858534827628530496329220096",
  "1329227995784915872903807060280344576",
  "340282366920938463463374607431768211456",
  "87112285931760246646623899502532662132736",
  "22300745198530623141535718272648361505980416",
  "5708990770823839524233143877797980545530986496",
  "1461501637330902918203684832716283019655932542976",
  "374144419156711147060143317175368453031918731001856",
  "95780971304118053647396689196894323976171195136475136",
  "24519928653854221733733552434404946937899825954937634816",
  "6277101735386680763835789423207666416102355444464034512896",
  "1606938044258990275541962092341162602522202993782792835301376",
  "411376139330301510538742295639337626245683966408394965837152256",
  "105312291668557186697918027683670432318895095400549111254310977536",
  "26959946667150639794667015087019630673637144422540572481103610249216",
  "6901746346790563787434755862277025452451108972170386555162524223799296",
  "1766847064778384329583297500742918515827483896875618958121606201292619776",
  "452312848583266388373324160190187140051835877600158453279131187530910662656",
  "115792089237316195423570985008687907853269984665640564039457584007913129639936">>
Pow8m == <<
  "128",
  "32768",
  "8388608",
  "2147483648",
  "549755813888",
  "140737488355328",
  "36028797018963968",
  "9223372036854775808",
  "2361183241434822606848",
  "604462909807314587353088",
  "154742504910672534362390528",
  "39614081257132168796771975168",
  "10141204801825835211973625643008",
  "2596148429267413814265248164610048",
  "664613997892457936451903530140172288",
  "170141183460469231731687303715884105728",
  "43556142965880123323311949751266331066368",
  "11150372599265311570767859136324180752990208",
  "2854495385411919762116571938898990272765493248",
  "730750818665451459101842416358141509827966271488",
  "187072209578355573530071658587684226515959365500928",
  "47890485652059026823698344598447161988085597568237568",
  "12259964326927110866866776217202473468949912977468817408",
  "3138550867693340381917894711603833208051177722232017256448",
  "803469022129495137770981046170581301261101496891396417650688",
  "205688069665150755269371147819668813122841983204197482918576128",
  "52656145834278593348959013841835216159447547700274555627155488768",
  "13479973333575319897333507543509815336818572211270286240551805124608",
  "3450873173395281893717377931138512726225554486085193277581262111899648",
  "883423532389192164791648750371459257913741948437809479060803100646309888",
  "226156424291633194186662080095093570025917938800079226639565593765455331328",
  "57896044618658097711785492504343953926634992332820282019728792003956564819968">>
Pow2(n) == IF n % 8 = 0 THEN Pow8[n \div 8] ELSE Pow8m[(n + 1) \div 8]   \* for these n only
RECURSIVE NatOf(_, _)
NatOf(s, i) == IF i = 0 THEN 0 ELSE 10 * NatOf(s, i - 1) + DigVal(Ch(s, i))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* a signed numeral as tokens
NumToks(s) == IF Neg(s) THEN <<"-", Mag(s)>> ELSE <<s>>
=============================================================================

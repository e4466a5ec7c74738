-------------------------------- MODULE Sine --------------------------------
(***************************************************************************)
(* Sines in 2^-24, by linear interpolation between whole degrees: within   *)
(* 1 / 26000 of a sine.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
Sin1 == <<0, 292803, 585516, 878052, 1170319, 1462231, 1753697, 2044628, 2334937, 2624535, 2913333,
     3201244, 3488179, 3774052, 4058776, 4342263, 4624427, 4905183, 5184445, 5462127, 5738146,
     6012416, 6284856, 6555381, 6823909, 7090358, 7354647, 7616697, 7876426, 8133756, 8388608,
     8640905, 8890570, 9137527, 9381700, 9623016, 9861400, 10096781, 10329086, 10558244,
     10784187, 11006844, 11226149, 11442034, 11654434, 11863283, 12068519, 12270079, 12467901,
     12661926, 12852093, 13038346, 13220627, 13398880, 13573053, 13743091, 13908942, 14070557,
     14227886, 14380881, 14529495, 14673684, 14813402, 14948609, 15079262, 15205322, 15326749,
     15443509, 15555564, 15662880, 15765426, 15863169, 15956081, 16044131, 16127295, 16205546,
     16278861, 16347217, 16410594, 16468971, 16522332, 16570661, 16613941, 16652161, 16685309,
     16713374, 16736348, 16754223, 16766996, 16774661, 16777216>>   \* of 0..90 degrees, in 2^-24
Quad(k) == Sin1[k + 1]
SinDeg(k) == LET d == k % 360 IN
  IF d <= 90 THEN Quad(d) ELSE IF d <= 180 THEN Quad(180 - d) ELSE IF d <= 270 THEN -Quad(d - 180) ELSE -Quad(360 - d)
(* of a bearing given in 2^-14 degrees, between the whole degrees *)
SinAt(a) == LET k == a \div 16384 f == a % 16384 x == SinDeg(k) y == SinDeg(k + 1) IN
  x + (((y - x) * (f \div 16)) \div 1024)
=============================================================================

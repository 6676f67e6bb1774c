----------------------------- MODULE StdCurves -----------------------------
(* The five NIST prime curves and secp256k1: <<p, a, b>>, base point, order,   *)
(* object identifier, length in bytes of the order.                            *)
EXTENDS Ec
NIST192pC == << <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,252>>, <<100,33,5,25,229,156,128,231,15,167,233,171,114,36,48,73,254,184,222,236,193,70,185,177>> >>
NIST192pG == << <<24,141,168,14,176,48,144,246,124,191,32,235,67,161,136,0,244,255,10,253,130,255,16,18>>, <<7,25,43,149,255,200,218,120,99,16,17,237,107,36,205,213,115,249,119,161,30,121,72,17>> >>
NIST192pN == <<255,255,255,255,255,255,255,255,255,255,255,255,153,222,248,54,20,107,201,177,180,210,40,49>>
NIST192pOid == << <<1>>, <<2>>, <<3,72>>, <<39,61>>, <<3>>, <<1>>, <<1>> >>
NIST224pC == << <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,1>>, <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,254>>, <<180,5,10,133,12,4,179,171,245,65,50,86,80,68,176,183,215,191,216,186,39,11,57,67,35,85,255,180>> >>
NIST224pG == << <<183,14,12,189,107,180,191,127,50,19,144,185,74,3,193,211,86,194,17,34,52,50,128,214,17,92,29,33>>, <<189,55,99,136,181,247,35,251,76,34,223,230,205,67,117,160,90,7,71,100,68,213,129,153,133,0,126,52>> >>
NIST224pN == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,22,162,224,184,240,62,19,221,41,69,92,92,42,61>>
NIST224pOid == << <<1>>, <<3>>, <<132>>, <<>>, <<33>> >>
NIST256pC == << <<255,255,255,255,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,255,255,255,255,255,255,255,255,255,255,255,255>>, <<255,255,255,255,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,255,255,255,255,255,255,255,255,255,255,255,252>>, <<90,198,53,216,170,58,147,231,179,235,189,85,118,152,134,188,101,29,6,176,204,83,176,246,59,206,60,62,39,210,96,75>> >>
NIST256pG == << <<107,23,209,242,225,44,66,71,248,188,230,229,99,164,64,242,119,3,125,129,45,235,51,160,244,161,57,69,216,152,194,150>>, <<79,227,66,226,254,26,127,155,142,231,235,74,124,15,158,22,43,206,51,87,107,49,94,206,203,182,64,104,55,191,81,245>> >>
NIST256pN == <<255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,255,188,230,250,173,167,23,158,132,243,185,202,194,252,99,37,81>>
NIST256pOid == << <<1>>, <<2>>, <<3,72>>, <<39,61>>, <<3>>, <<1>>, <<7>> >>
NIST384pC == << <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,0,0,0,0,0,0,0,0,255,255,255,255>>, <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,0,0,0,0,0,0,0,0,255,255,255,252>>, <<179,49,47,167,226,62,231,228,152,142,5,107,227,248,45,25,24,29,156,110,254,129,65,18,3,20,8,143,80,19,135,90,198,86,57,141,138,46,209,157,42,133,200,237,211,236,42,239>> >>
NIST384pG == << <<170,135,202,34,190,139,5,55,142,177,199,30,243,32,173,116,110,29,59,98,139,167,155,152,89,247,65,224,130,84,42,56,85,2,242,93,191,85,41,108,58,84,94,56,114,118,10,183>>, <<54,23,222,74,150,38,44,111,93,158,152,191,146,146,220,41,248,244,29,189,40,154,20,124,233,218,49,19,181,240,184,192,10,96,177,206,29,126,129,157,122,67,29,124,144,234,14,95>> >>
NIST384pN == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,199,99,77,129,244,55,45,223,88,26,13,178,72,176,167,122,236,236,25,106,204,197,41,115>>
NIST384pOid == << <<1>>, <<3>>, <<132>>, <<>>, <<34>> >>
NIST521pC == << <<1,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255>>, <<1,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,252>>, <<81,149,62,185,97,142,28,154,31,146,154,33,160,182,133,64,238,162,218,114,91,153,179,21,243,184,180,137,145,142,241,9,225,86,25,57,81,236,126,147,123,22,82,192,189,59,177,191,7,53,115,223,136,61,44,52,241,239,69,31,212,107,80,63,0>> >>
NIST521pG == << <<198,133,142,6,183,4,4,233,205,158,62,203,102,35,149,180,66,156,100,129,57,5,63,181,33,248,40,175,96,107,77,61,186,161,75,94,119,239,231,89,40,254,29,193,39,162,255,168,222,51,72,179,193,133,106,66,155,249,126,126,49,194,229,189,102>>, <<1,24,57,41,106,120,154,59,192,4,92,138,95,180,44,125,27,217,152,245,68,73,87,155,68,104,23,175,189,23,39,62,102,44,151,238,114,153,94,244,38,64,197,80,185,1,63,173,7,97,53,60,112,134,162,114,194,64,136,190,148,118,159,209,102,80>> >>
NIST521pN == <<1,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,250,81,134,135,131,191,47,150,107,127,204,1,72,247,9,165,208,59,181,201,184,137,156,71,174,187,111,183,30,145,56,100,9>>
NIST521pOid == << <<1>>, <<3>>, <<132>>, <<>>, <<35>> >>
SECP256k1C == << <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,252,47>>, <<>>, <<7>> >>
SECP256k1G == << <<121,190,102,126,249,220,187,172,85,160,98,149,206,135,11,7,2,155,252,219,45,206,40,217,89,242,129,91,22,248,23,152>>, <<72,58,218,119,38,163,196,101,93,164,251,252,14,17,8,168,253,23,180,72,166,133,84,25,156,71,208,143,251,16,212,184>> >>
SECP256k1N == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,186,174,220,230,175,72,160,59,191,210,94,140,208,54,65,65>>
SECP256k1Oid == << <<1>>, <<3>>, <<132>>, <<>>, <<10>> >>
CvC(name) == CASE name = "NIST192p" -> NIST192pC
    [] name = "NIST224p" -> NIST224pC
    [] name = "NIST256p" -> NIST256pC
    [] name = "NIST384p" -> NIST384pC
    [] name = "NIST521p" -> NIST521pC
    [] name = "SECP256k1" -> SECP256k1C
CvG(name) == CASE name = "NIST192p" -> NIST192pG
    [] name = "NIST224p" -> NIST224pG
    [] name = "NIST256p" -> NIST256pG
    [] name = "NIST384p" -> NIST384pG
    [] name = "NIST521p" -> NIST521pG
    [] name = "SECP256k1" -> SECP256k1G
CvN(name) == CASE name = "NIST192p" -> NIST192pN
    [] name = "NIST224p" -> NIST224pN
    [] name = "NIST256p" -> NIST256pN
    [] name = "NIST384p" -> NIST384pN
    [] name = "NIST521p" -> NIST521pN
    [] name = "SECP256k1" -> SECP256k1N
CvOid(name) == CASE name = "NIST192p" -> NIST192pOid
    [] name = "NIST224p" -> NIST224pOid
    [] name = "NIST256p" -> NIST256pOid
    [] name = "NIST384p" -> NIST384pOid
    [] name = "NIST521p" -> NIST521pOid
    [] name = "SECP256k1" -> SECP256k1Oid
CvLen(name) == OctLen(CvN(name))
=============================================================================

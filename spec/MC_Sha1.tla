------------------------------- MODULE MC_Sha1 -------------------------------
(* Published test vectors for the hash functions (FIPS 180, RFC 2202).      *)
EXTENDS Octets, Sha1
VARIABLE x
Hex(str) == [i \in 1..(Len(str) \div 2) |->
               LET v(c) == IF c > 96 THEN c - 87 ELSE c - 48
                   b == B(str)
               IN  16 * v(b[2*i - 1]) + v(b[2*i])]
Fill(b, n) == [i \in 1..n |-> b]
Vectors ==
  /\ SHA1(<<>>) = Hex("da39a3ee5e6b4b0d3255bfef95601890afd80709")
  /\ SHA1(B("abc")) = Hex("a9993e364706816aba3e25717850c26c9cd0d89d")
  /\ SHA1(B("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")) = Hex("84983e441c3bd26ebaae4aa1f95129e5e54670f1")
  /\ HMAC(Fill(11, 20), B("Hi There")) = Hex("b617318655057264e28bc0b6fb378c8ef146be00")
  /\ HMAC(B("Jefe"), B("what do ya want for nothing?")) = Hex("effcdf6ae5eb2fa2d27416d5f184df9c259a7c79")
  /\ HMAC(Fill(170, 80), B("Test Using Larger Than Block-Size Key - Hash Key First")) = Hex("aa4ae5e15272d00e95705637ce8a3b55ed402112")
  /\ Base64(B("")) = B("") /\ Base64(B("f")) = B("Zg==") /\ Base64(B("fo")) = B("Zm8=") /\ Base64(B("foobar")) = B("Zm9vYmFy")
  /\ \A n \in 53..66 : Len(SHA1(Fill(97, n))) = 20
Init == x = 0 /\ Vectors
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
\* One state: the vectors hold.
Inv == Vectors
=============================================================================

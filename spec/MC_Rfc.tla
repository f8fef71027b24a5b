------------------------------- MODULE MC_Rfc -------------------------------
(* The examples RFC 5849 itself prints: the base string of section 3.4.1.1, *)
(* the normalized parameters of 3.4.1.3.2, and the signed request of 1.2.   *)
EXTENDS Session
VARIABLE x

Pairs == << <<B("b5"), B("%3D%253D")>>, <<B("a3"), B("a")>>, <<B("c%40"), <<>>>>, <<B("a2"), B("r%20b")>>,
            <<B("oauth_consumer_key"), B("9djdj82h48djs9d2")>>, <<B("oauth_token"), B("kkk9d7dh3k39sjv7")>>,
            <<B("oauth_signature_method"), B("HMAC-SHA1")>>, <<B("oauth_timestamp"), B("137131201")>>,
            <<B("oauth_nonce"), B("7d8f3e4a")>>, <<B("c2"), <<>>>>, <<B("a3"), B("2%20q")>> >>
Base3411 ==
  Cat(<< B("POST&http%3A%2F%2Fexample.com%2Frequest&a2%3Dr%2520b%26a3%3D2%2520q%26a3%3Da%26b5%3D%253D%25253D"),
         B("%26c%2540%3D%26c2%3D%26oauth_consumer_key%3D9djdj82h48djs9d2%26oauth_nonce%3D7d8f3e4a"),
         B("%26oauth_signature_method%3DHMAC-SHA1%26oauth_timestamp%3D137131201%26oauth_token%3Dkkk9d7dh3k39sjv7") >>)
Normalized ==
  Cat(<< B("a2=r%20b&a3=2%20q&a3=a&b5=%3D%253D&c%40=&c2=&oauth_consumer_key=9djdj82h48djs9d2&oauth_nonce=7d8f3e4a"),
         B("&oauth_signature_method=HMAC-SHA1&oauth_timestamp=137131201&oauth_token=kkk9d7dh3k39sjv7") >>)

Photos == [mode |-> "query", buf |-> <<>>, method |-> B("GET"), uri |-> B("http://photos.example.net/photos"),
           cid |-> B("dpf43f3p2l4k3l03"), csec |-> B("kd94hf93k423kf44"),
           token |-> <<B("nnch734d00sl2jdk"), B("pfkkdhi9sl3r4s00")>>, callback |-> <<>>, verifier |-> <<>>,
           nonce |-> <<B("chapoH")>>, timestamp |-> <<B("137131202")>>, version |-> FALSE,
           sm |-> [kind |-> "hmac", name |-> B("HMAC-SHA1"), sig |-> <<>>, use_nonce |-> TRUE, use_ts |-> TRUE,
                   hooks |-> <<>>, n |-> <<>>, e |-> 0],
           debug |-> TRUE, order |-> TRUE, clock |-> TRUE]
PhotosPairs == EncText(ProtoPairs(Photos, <<>>, <<>>)) \o << <<B("file"), B("vacation.jpg")>>, <<B("size"), B("original")>> >>
PhotosBase == BaseString(Photos.method, Photos.uri, PhotosPairs)

Examples ==
  /\ FormText(SortPairs(Pairs)) = Normalized
  /\ BaseString(B("POST"), B("http://example.com/request"), Pairs) = Base3411
  /\ HmacSignature(Photos, PhotosBase) = B("MdpQcU8iPSUjWoN/UDMsK2sui9I=")
  /\ SignatureOk(Photos, PhotosBase, B("MdpQcU8iPSUjWoN/UDMsK2sui9I="))
  /\ ~SignatureOk(Photos, PhotosBase, B("MdpQcU8iPSUjWoN/UDMsK2sui9i="))
  /\ SigningKey(Photos) = B("kd94hf93k423kf44&pfkkdhi9sl3r4s00")

Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Inv == Examples
=============================================================================

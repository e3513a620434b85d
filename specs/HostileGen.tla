----------------------------- MODULE HostileGen -----------------------------
(* What attackers do while two well-behaved clients go about their business: packets of every layer, whole or damaged    *)
(* in one place, requests and connections that make no sense, and abuse of every resource the server has.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Parser, Mode
VARIABLES fin, hist
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
Of(q) == q[RandomElement(1..Len(q))]
Attackers == 1..3
Texts == <<
  "42[\"echo\",\"$\"]", "42/a,[\"echo\",\"$\"]", "421[\"echo\",\"$\"]", "42/a,12[\"echo\",\"$\"]",
  "451-1[\"becho\",\"$\",{\"_placeholder\":true,\"num\":0}]", "451-/a,3[\"becho\",\"$\",{\"_placeholder\":true,\"num\":0}]",
  "452-[\"two\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]", "4512-9[\"two\",{\"_placeholder\":true,\"num\":0}]",
  "451-[\"types\",1,\"x\",true,{\"a\":[1]},[1,2],1.5,\"p\",{\"_placeholder\":true,\"num\":0},[1,2],{\"k\":\"v\"},{\"A\":1,\"B\":2}]",
  "42[\"types\",1,\"x\",true,{\"a\":[1]},[1,2],1.5,null,null,[1,2],{\"k\":\"v\"},{}]", "42[\"types\"]",
  "42[\"types\",\"x\",1,2,[1],{\"a\":1},\"q\",4,\"s\",{\"a\":2},[1],\"x\"]", "451-2[\"few\",{\"_placeholder\":true,\"num\":0},300]",
  "451-2[\"few\",{\"_placeholder\":true,\"num\":-1},3]", "451-2[\"few\",{\"_placeholder\":true,\"num\":5},3]",
  "451-2[\"few\",{\"_placeholder\":true,\"num\":1e99},3]", "451-2[\"few\",{\"num\":0},3]", "451-2[\"few\",{\"_placeholder\":\"x\",\"num\":\"y\"},3]",
  "42[\"few\",\"x\",\"y\"]", "424[\"any\",{\"a\":{\"b\":[null,1.5,-7]}}]", "424[\"any\",1e999]", "42[\"ask\"]", "42[\"bye\"]", "40", "40/a", "40/a,",
  "40/b", "40/a?x=1,", "41", "41/a", "41/b,", "43", "430", "430[]", "430[\"x\",true]", "431[\"x\",true]", "430[1,2,3,4]", "43/a,0[\"x\",true]",
  "4399999999999999999999[\"x\"]", "461-0[{\"_placeholder\":true,\"num\":0}]", "461-0[\"x\",{\"_placeholder\":true,\"num\":0}]", "44", "44\"err\"",
  "44/a,\"err\"", "45", "46", "450-[\"echo\",\"x\"]", "451-[\"x\"]", "451-1", "45-[\"x\"]", "45a-[\"x\"]", "47[]", "4", "4[]", "4{}", "4\"", "42", "42[",
  "42[]", "42[null]", "42[1,2]", "42{\"a\":1}", "42\"echo\"", "42[\"echo\"]", "42[\"echo\",null]", "42[\"echo\",\"x\"]tail", "42[\"echo\",\"x\"",
  "42[\"echo\",{\"_placeholder\":true,\"num\":0}]", "42/,[\"echo\",\"x\"]", "42/a", "42,[\"echo\",\"x\"]", "42//a,[\"echo\",\"x\"]", "2probe", "2",
  "3probe", "5", "6", "1", "0{}", "0", "7", "9x", ":", "", "\\u0000", "b4NDA=", "bbbb", "\\ud800">>
Frames == <<
  "0482a47479706500a36e7370a12f", "0482a47479706500a36e7370a22f61", "0482a47479706501a36e7370a12f", "0482a47479706501a36e7370a22f61",
  "0484a47479706502a36e7370a12fa46461746192a46563686fa178a2696407", "0483a47479706502a36e7370a22f61a46461746192a46563686fa178",
  "0484a47479706502a36e7370a12fa46461746193a5626563686fa178c4020001a2696403",
  "0483a47479706502a36e7370a12fa4646174619ca5747970657301a178c381a1619101920102cb3ff8000000000000a170c4016292010281a16ba17605",
  "0484a47479706502a36e7370a12fa46461746193a3666577c403616263d3000000000000012ca2696409",
  "0483a47479706502a36e7370a12fa46461746193a374776f9292a161a16291a163c40178",
  "0484a47479706502a36e7370a12fa46461746192a3616e7981a16181a16293c0cb3ff8000000000000f9a2696401", "0483a47479706502a36e7370a12fa46461746191a361736b",
  "0484a47479706503a36e7370a12fa46461746192a178c3a26964d30000000000007fff", "0484a47479706503a36e7370a12fa46461746192a178c3a2696401",
  "0483a47479706503a36e7370a12fa46461746190", "0483a47479706504a36e7370a12fa464617461a3657272",
  "0483a47479706505a36e7370a12fa46461746193a5626563686fa178c40178", "0484a47479706506a36e7370a12fa46461746191c40178a2696401",
  "0483a47479706502a36e7370a12fa464617461a46563686f", "0483a47479706502a36e7370a12fa46461746190", "0483a47479706502a36e7370a12fa4646174619201a46563686f",
  "0483a47479706502a36e7370a12fa464617461c0", "0482a47479706502a36e7370a12f", "0483a47479706563a36e7370a12fa46461746192a46563686fa178",
  "0483a474797065ffa36e7370a12fa46461746192a46563686fa178", "0483a47479706502a36e7370a12fa46461746181a16101",
  "0484a47479706502a36e7370a12fa46461746192a46563686fc0a26964a178", "0484a47479706502a36e7370a12fa46461746192a46563686fa178a26964d37fffffffffffffff",
  "0483a474797065a132a36e7370a12fa46461746192a46563686fa178", "0483a47479706502a36e737005a46461746192a46563686fa178",
  "0483a47479706502a36e7370a0a46461746192a46563686fa178", "0483a47479706502a36e7370a12fa4646174619ca57479706573c0c0c0c0c0c0c0c0c0c0c0",
  "0483a47479706502a36e7370a12fa4646174619ca57479706573a1780102910181a16101a17104a17381a161029101c40178", "04", "04c0", "0480", "0490", "04c1",
  "049302a12f91a46563686f", "0483a47479706502a36e7370a12fa464617461d7000102030405060708", "0483a47479706502a36e7370a12fa46461746192a46563686fd9ff78",
  "0483a47479706502a36e7370a12fa46461746192a46563686fdc0003a178", "0483a47479706502a36e7370a12fa46461746192a3616e79c800050178",
  "0484a47479706502a36e7370a12fa46461746192a46563686fa178a47479706503", "03", "0270726f6265", "05", "06", "01", "ff", "">>
TextPayloads == <<
  "1:6", "1:61:6", "2:40", "3:4/a", "10:b4AQIDBAU=", "6:42[\"x\"]", "12:42[\"echo\",\" \"]", "0:", "", "1:", "1", "a:6", "2:b", "2:b4", "3:b4=", "5:b4AQ=",
  "1:61:", "1:6x:6", "007:2probe", "1:11:11:1", "2:40 2:40", "1:6\\n1:6", "6:b9AAAA", "1:5", "6:2probe", "3:451", "99:6", "-1:6", "4294967297:6",
  "18446744073709551617:6", "1:9", "1:/">>
BinPayloads == <<
  "0001ff36", "0101ff04", "0001ff360001ff36", "000102ff", "0102ff0405", "00ff", "01ff", "00", "01", "ff", "", "02ff36", "0001", "0001ffff", "000aff36",
  "000909090909090909ff36", "00000001ff36", "0000ff", "0100ff", "0002ff3432", "0001ff31", "0001ff35", "0007ff3270726f6265", "0001ff390101ff09",
  "0001ff340101ffff", "0002ff343001020bff0483">>
Raw == <<
  "810474657374", "8184010203044353434b", "838000000000", "89fe008000000000", "888000000000", "888100000000ff", "888200000000ffff", "88820000000003e8",
  "808000000000", "c18000000000", "818100000000ff", "898000000000", "8a8000000000", "01810000000034", "0181000000003489800000000080810000000030",
  "82ff7fffffffffffffff00000000", "81fe000000000000", "ff", "00", "8184", "">>
Targets == <<
  "", "EIO=3", "EIO=3&transport=polling", "EIO=3&transport=polling&sid=$SID", "EIO=3&transport=polling&sid=nosuch", "EIO=3&transport=websocket",
  "EIO=3&transport=websocket&sid=$SID", "EIO=3&transport=websocket&sid=nosuch", "transport=polling&sid=$SID", "EIO=4&transport=polling",
  "EIO=3&transport=polling&j=", "EIO=3&transport=polling&j=abc&sid=$SID", "EIO=3&transport=polling&j=0&sid=$SID", "EIO=3&transport=polling&j=-1&sid=$SID",
  "EIO=3&transport=polling&b64=1&sid=$SID", "EIO=3&transport=polling&b64=x&j=y&sid=$SID", "EIO=3&transport=polling&transport=websocket&sid=$SID",
  "EIO=3&transport=&sid=$SID", "sid=$SID", "sid=", "EIO=3&transport=polling&sid=$SID&sid=x", "%zz=%", "EIO=3&transport=nothing", "EIO=3;transport=polling",
  "&&&&", "EIO=3&transport=polling&sid=$SID%00", "EIO=3&transport=POLLING", "EIO=3&transport=polling&sid=%24SID">>
Bodies == <<
  "", "x", "1:6", "2:40", "d=1%3A6", "d=", "d=%zz", "d=2:40&d=2:40", "5:42[]x", "6:42[\"x\"]">>

Macros == <<"deepjson", "deepmsgp", "deepmsgp", "hugemsgp", "hugecount", "hugeframe", "hugelength", "attachments", "orphans", "namespaces", "connects",
            "acks", "packets", "big", "fragments", "slowpost", "polls", "deaf", "handshakes", "halfopen">>
Amount(m) == CASE m \in {"deepjson"} -> Pick({50, 9999, 10001, 100000})
               [] m = "deepmsgp" -> Pick({50, 10000, 100000, 4000000})
               [] m = "big" -> Pick({1, 64, 512})
               [] m \in {"packets", "deaf"} -> Pick({5, 30, 200})
               [] m = "slowpost" -> Pick(1..2)
               [] OTHER -> Pick({3, 20, 100})
Hows == {"cut", "short", "put", "ins", "tail", "twice", "swap", "rep"}
Damage(n) == [how |-> IF n <= 4 THEN "none" ELSE Pick(Hows), at |-> Pick(0..60), code |-> Pick({0, 1, 4, 9, 34, 44, 45, 48, 49, 50, 57, 58, 91, 93, 98, 123, 125, 128, 144, 160, 192, 193, 196, 198, 201, 217, 221, 223, 255} \cup 0..255)]
Do(rec) == hist' = Append(hist, rec)
With(rec, n) == Do(rec @@ Damage(n))
Nsp == {"/", "/a"}
Victim == \E v \in One(1..2), nsp \in One(Nsp), k \in One(1..10), bin \in One({TRUE, FALSE}) :
  CASE k <= 3 -> Do([op |-> "vsend", v |-> v, nsp |-> nsp, bin |-> bin])
    [] k <= 5 -> Do([op |-> "vhalf", v |-> v, nsp |-> nsp])
    [] k <= 7 -> Do([op |-> "vwhole", v |-> v])
    [] OTHER -> Do([op |-> "vemit", v |-> v, nsp |-> nsp, bin |-> bin])
Open == \E a \in One(Attackers), tr \in One({"polling", "websocket"}), drop \in One({TRUE, FALSE}) : Do([op |-> "open", a |-> a, tr |-> tr, drop |-> drop])
Drop == \E a \in One(Attackers) : Do([op |-> "drop", a |-> a])
Text == \E a \in One(Attackers), n \in One(1..9), k \in One(1..10) :
  IF Parser = "msgpack" /\ k <= 7 THEN With([op |-> "text", a |-> a, base |-> Of(Frames), hex |-> TRUE, bin |-> k > 1], n)
  ELSE With([op |-> "text", a |-> a, base |-> Of(Texts), hex |-> FALSE, bin |-> k = 1], n)
Attachment == \E a \in One(Attackers), n \in One(1..9) : With([op |-> "text", a |-> a, base |-> Pick({"0401", "04", "", "0400ff", "03", "07"}), hex |-> TRUE, bin |-> TRUE], n)
Payload == \E a \in One(Attackers), n \in One(1..9), ct \in One({"text", "text", "bin", "bin", "odd", "none"}), h \in One({TRUE, FALSE}) :
  With([op |-> "payload", a |-> a, ct |-> ct, hex |-> h, base |-> IF h THEN Of(BinPayloads) ELSE Of(TextPayloads)], n)
Http == \E a \in One(Attackers), m \in One({"GET", "GET", "POST", "POST", "PUT", "OPTIONS", "HEAD", "DELETE", "PATCH"}) :
  Do([op |-> "http", a |-> a, m |-> m, target |-> Of(Targets), body |-> Of(Bodies), ct |-> Pick({"", "text/plain", "application/octet-stream", "application/x-www-form-urlencoded", ";;"}), ws |-> Pick({TRUE, FALSE, FALSE})])
RawOp == \E a \in One(Attackers), n \in One(1..6) : With([op |-> "raw", a |-> a, hex |-> TRUE, base |-> Of(Raw), cut |-> Pick({TRUE, FALSE})], n)
Candidates == \E a \in One(Attackers) : Do([op |-> "candidates", a |-> a, n |-> Pick(1..4), how |-> Pick({"mute", "ping", "wrong", "nopong", "burst", "binary", "empty"}), base |-> Pick({"2[\"echo\",\"x\"]", "51-[\"any\"]", "1", "zz"}), close |-> Pick({TRUE, FALSE})])
Macro == \E a \in One(Attackers), m \in One({Of(Macros)}) : Do([op |-> "macro", a |-> a, name |-> m, n |-> Amount(m)])
(* half a packet, the end of the session it came on, and the other half on the next *)
Half(u) == IF Parser = "msgpack" THEN Of(Frames) ELSE Pick({"451-1[\"becho\",\"$\",{\"_placeholder\":true,\"num\":0}]", "452-[\"two\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]", "451-/a,3[\"becho\",\"$\",{\"_placeholder\":true,\"num\":0}]"})
Inherit == \E a \in One(Attackers), b \in One(Attackers), tr \in One({"polling", "websocket"}), k \in One(1..5), x \in One(1..9) :
  hist' = hist \o <<[op |-> "text", a |-> a, base |-> Half(0), hex |-> Parser = "msgpack", bin |-> Parser = "msgpack", how |-> "none", at |-> 0, code |-> 0]>>
               \o (CASE k = 1 -> <<[op |-> "drop", a |-> a]>> [] k = 2 -> <<[op |-> "open", a |-> a, tr |-> tr, drop |-> TRUE]>>
                     [] k = 3 -> <<[op |-> "text", a |-> a, base |-> "1", hex |-> FALSE, bin |-> FALSE, how |-> "none", at |-> 0, code |-> 0]>>
                     [] k = 4 -> <<[op |-> "text", a |-> a, base |-> "41", hex |-> FALSE, bin |-> FALSE, how |-> "none", at |-> 0, code |-> 0]>> [] OTHER -> <<>>)
               \o (IF x > 6 THEN <<>> ELSE <<[op |-> "open", a |-> b, tr |-> tr, drop |-> x = 1]>>)
               \o <<[op |-> "text", a |-> b, base |-> "0401", hex |-> TRUE, bin |-> TRUE, how |-> "none", at |-> 0, code |-> 0]>>
Probe == \E a \in One(Attackers) : Do([op |-> "probe", a |-> a])
Newcomer == \E tr \in One({"polling", "websocket"}) : Do([op |-> "newcomer", tr |-> tr])
Adv == Mode = "virtual" /\ \E d \in One({1, 5000, 24000, 59000, 61000}) : Do([op |-> "adv", d |-> d])
Ops == \/ Victim \/ Victim \/ Victim \/ Text \/ Text \/ Text \/ Text \/ Attachment \/ Inherit \/ Payload \/ Payload \/ Http \/ RawOp \/ Candidates \/ Macro \/ Open \/ Open \/ Drop \/ Probe \/ Newcomer \/ Adv
Init == fin = FALSE /\ hist = <<>>
Next == \/ Len(hist) < Depth /\ Ops /\ UNCHANGED fin
        \/ Len(hist) >= Depth /\ ~fin /\ fin' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<fin, hist>>
Emit_ == fin => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================

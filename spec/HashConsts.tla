---------------------------- MODULE HashConsts ----------------------------
(***************************************************************************)
(* The constants of SHA-256 (FIPS 180-4; the most significant 16-bit half    *)
(* first) and of Vision Mark-32 (eprint 2024/633; elements of the 32-bit     *)
(* tower field, least significant 16-bit half first, the affine maps in the  *)
(* AES representation of the tower).                                         *)
(***************************************************************************)
K256 == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025,
   4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772,
   32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374,
   18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457,
   35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695,
   37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304,
   3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034,
   26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202,
   41072>>, <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184,
   43594>>, <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039,
   520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
H256 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685,
   26764>>, <<8067, 55723>>, <<23520, 52505>>>>
VFwd == <<<<61419, 11528>>, <<52593, 62316>>, <<59077, 405>>, <<19615, 26000>>, <<6654, 6321>>, <<7956, 29386>>,
    <<24860, 45387>>, <<38679, 14950>>, <<18654, 20115>>, <<46219, 16524>>, <<50461, 9219>>, <<10644, 59327>>,
    <<37855, 53202>>, <<32578, 11871>>, <<2004, 17075>>, <<58746, 25767>>, <<39288, 16923>>, <<36663, 31505>>,
    <<35130, 12458>>, <<6453, 15874>>, <<2517, 62956>>, <<3989, 49546>>, <<58307, 20420>>, <<19458, 36939>>,
    <<28462, 53597>>, <<23676, 36120>>, <<6115, 20556>>, <<30658, 14311>>, <<3730, 12465>>, <<33370, 28186>>,
    <<19548, 28321>>, <<1055, 23067>>>>
VFwdC == <<23295, 11304>>
VInv == <<<<22187, 6898>>, <<12744, 45066>>, <<23469, 53412>>, <<3716, 10426>>, <<25515, 38931>>, <<19919, 21161>>,
    <<28842, 33071>>, <<15927, 16803>>, <<51995, 2282>>, <<46998, 35955>>, <<48896, 2116>>, <<60432, 36975>>,
    <<58498, 43758>>, <<8722, 58093>>, <<59982, 22516>>, <<45259, 27891>>, <<23367, 3030>>, <<53836, 64900>>,
    <<27685, 24184>>, <<3138, 56635>>, <<35699, 57587>>, <<14192, 31065>>, <<28563, 55270>>, <<60716, 40242>>,
    <<25251, 32616>>, <<15602, 1800>>, <<7180, 27335>>, <<37091, 49256>>, <<23818, 49007>>, <<57264, 56771>>,
    <<4544, 61732>>, <<16198, 15541>>>>
VInvC == <<28564, 27352>>
VKeys == <<
  <<<<26279, 21598>>, <<56664, 1855>>, <<9847, 33846>>, <<34149, 38398>>, <<40152, 1574>>, <<37022, 39959>>,
    <<44526, 61936>>, <<50840, 9876>>, <<30863, 38066>>, <<5293, 24236>>, <<31352, 8551>>, <<29451, 22357>>,
    <<63951, 14286>>, <<8190, 12211>>, <<33516, 64512>>, <<4848, 24732>>, <<27118, 4135>>, <<34317, 18226>>,
    <<13792, 63865>>, <<31746, 14055>>, <<28895, 47774>>, <<471, 26551>>, <<30628, 33437>>, <<17741, 63212>>>>,
  <<<<993, 29690>>, <<42577, 9553>>, <<799, 1345>>, <<23004, 60445>>, <<2883, 30735>>, <<16279, 1156>>,
    <<57867, 54137>>, <<8024, 48717>>, <<63675, 58562>>, <<60951, 62106>>, <<20978, 8846>>, <<59179, 33806>>,
    <<46862, 3251>>, <<37194, 47820>>, <<64126, 18699>>, <<398, 49859>>, <<15314, 63185>>, <<8161, 27213>>,
    <<51010, 19499>>, <<52038, 17672>>, <<41713, 60771>>, <<63577, 6146>>, <<33717, 40964>>, <<11896, 22241>>>>,
  <<<<31306, 47822>>, <<5120, 50087>>, <<45846, 23081>>, <<36134, 61148>>, <<19838, 20929>>, <<39912, 10973>>,
    <<34547, 65219>>, <<26076, 25351>>, <<49691, 44790>>, <<64538, 35992>>, <<20381, 16284>>, <<29233, 14750>>,
    <<35588, 47651>>, <<26604, 30845>>, <<55471, 12602>>, <<10947, 56674>>, <<55736, 57512>>, <<25350, 43534>>,
    <<17780, 10630>>, <<16858, 26606>>, <<10125, 21762>>, <<8369, 43310>>, <<21288, 4060>>, <<61050, 29915>>>>,
  <<<<62273, 35794>>, <<10072, 23004>>, <<50976, 20806>>, <<12321, 40436>>, <<18922, 3356>>, <<45221, 33236>>,
    <<58577, 56314>>, <<12568, 49941>>, <<60545, 35386>>, <<34900, 60109>>, <<9590, 56651>>, <<52969, 32213>>,
    <<30647, 24222>>, <<64909, 27502>>, <<46080, 61725>>, <<22711, 3682>>, <<46819, 14259>>, <<19553, 60808>>,
    <<29052, 47432>>, <<21711, 15733>>, <<37649, 16961>>, <<4563, 16941>>, <<45799, 21394>>, <<22813, 31169>>>>,
  <<<<18606, 10207>>, <<49422, 38027>>, <<40385, 51975>>, <<14903, 60696>>, <<49270, 33244>>, <<1168, 9419>>,
    <<40888, 21206>>, <<26214, 35671>>, <<65101, 29849>>, <<40500, 36743>>, <<30730, 51985>>, <<27433, 24199>>,
    <<38571, 46893>>, <<58913, 44072>>, <<51838, 6318>>, <<2991, 62419>>, <<42303, 51196>>, <<10266, 63411>>,
    <<21919, 56053>>, <<41139, 10156>>, <<54254, 38165>>, <<53985, 41887>>, <<21186, 63003>>, <<23055, 33772>>>>,
  <<<<7971, 35204>>, <<50145, 35792>>, <<54827, 56877>>, <<37910, 14201>>, <<13511, 21896>>, <<62816, 37789>>,
    <<62551, 45481>>, <<56027, 52004>>, <<10794, 20336>>, <<22562, 26029>>, <<22397, 32463>>, <<16530, 29323>>,
    <<64125, 35300>>, <<30038, 4301>>, <<31415, 7655>>, <<50480, 9076>>, <<35284, 38322>>, <<14434, 42669>>,
    <<41523, 50865>>, <<5689, 44112>>, <<29347, 16224>>, <<31940, 63662>>, <<19699, 25135>>, <<63323, 63436>>>>,
  <<<<27308, 44767>>, <<22194, 54851>>, <<41321, 7355>>, <<686, 26758>>, <<45912, 25137>>, <<35718, 8122>>,
    <<16156, 63416>>, <<16464, 18012>>, <<59212, 17411>>, <<49907, 24401>>, <<19021, 6929>>, <<48968, 36658>>,
    <<3324, 34713>>, <<23729, 29109>>, <<12644, 29448>>, <<22702, 12221>>, <<52159, 22971>>, <<7866, 45276>>,
    <<27135, 62193>>, <<37864, 21708>>, <<64643, 38748>>, <<26575, 48892>>, <<17051, 47169>>, <<32100, 65298>>>>,
  <<<<6019, 54870>>, <<15513, 34837>>, <<57665, 6660>>, <<4214, 25187>>, <<21154, 45579>>, <<33380, 7665>>,
    <<28439, 1303>>, <<10066, 20571>>, <<29098, 37194>>, <<63853, 7020>>, <<15193, 23179>>, <<34252, 15032>>,
    <<12068, 60774>>, <<63014, 43097>>, <<14011, 55569>>, <<55643, 28066>>, <<54905, 1087>>, <<34280, 47590>>,
    <<28581, 57209>>, <<10403, 21500>>, <<56439, 3093>>, <<21970, 1938>>, <<41632, 13171>>, <<302, 64619>>>>,
  <<<<40944, 45877>>, <<44252, 42097>>, <<57738, 27347>>, <<12133, 20225>>, <<14639, 60372>>, <<44835, 9683>>,
    <<18076, 31336>>, <<59991, 54393>>, <<25680, 46427>>, <<2581, 34543>>, <<16687, 61181>>, <<36656, 51433>>,
    <<49453, 25056>>, <<26636, 14020>>, <<43926, 59416>>, <<26098, 64695>>, <<32746, 52148>>, <<680, 51682>>,
    <<51948, 51042>>, <<2301, 13935>>, <<14873, 24111>>, <<33687, 9260>>, <<66, 25482>>, <<51653, 25585>>>>,
  <<<<41532, 20008>>, <<61659, 56294>>, <<64235, 40180>>, <<9750, 12254>>, <<56993, 8926>>, <<4494, 2287>>,
    <<27362, 55281>>, <<12456, 41275>>, <<22721, 11499>>, <<32134, 51800>>, <<20429, 63189>>, <<62453, 40153>>,
    <<38050, 39695>>, <<2147, 57054>>, <<60205, 42504>>, <<17513, 19772>>, <<16949, 21368>>, <<43550, 19702>>,
    <<49365, 52078>>, <<46238, 62260>>, <<42618, 58871>>, <<22690, 39062>>, <<29386, 41382>>, <<60653, 28599>>>>,
  <<<<63416, 11197>>, <<25174, 43106>>, <<63112, 55643>>, <<23175, 17188>>, <<61488, 49482>>, <<37690, 10469>>,
    <<15885, 15083>>, <<32234, 5791>>, <<53732, 19668>>, <<22197, 36277>>, <<18922, 56602>>, <<65373, 58958>>,
    <<26184, 35797>>, <<8894, 11316>>, <<46399, 23807>>, <<43630, 27514>>, <<53679, 49832>>, <<48852, 32377>>,
    <<36433, 53424>>, <<47700, 6241>>, <<50868, 47059>>, <<55242, 27291>>, <<15013, 4765>>, <<37907, 32926>>>>,
  <<<<36221, 21075>>, <<5152, 56644>>, <<58069, 14498>>, <<24369, 52432>>, <<62374, 10825>>, <<52379, 58675>>,
    <<59694, 41357>>, <<26698, 18783>>, <<58286, 40>>, <<10337, 54279>>, <<55203, 14095>>, <<9404, 29314>>,
    <<46039, 43190>>, <<28742, 56026>>, <<29151, 60062>>, <<32083, 37199>>, <<27337, 39801>>, <<6761, 59382>>,
    <<36721, 26534>>, <<23782, 32433>>, <<63969, 60314>>, <<21681, 42847>>, <<1063, 22817>>, <<13176, 29961>>>>,
  <<<<28650, 10118>>, <<19914, 15320>>, <<7482, 26653>>, <<29846, 59387>>, <<39928, 34557>>, <<34694, 49650>>,
    <<31238, 46065>>, <<15806, 24772>>, <<57790, 5886>>, <<30036, 43072>>, <<40507, 51856>>, <<17948, 45564>>,
    <<26174, 55373>>, <<26267, 11901>>, <<23126, 23387>>, <<53392, 27731>>, <<1958, 9063>>, <<20119, 32543>>,
    <<9203, 59739>>, <<58333, 36049>>, <<12818, 37519>>, <<7200, 40060>>, <<60387, 238>>, <<12114, 49239>>>>,
  <<<<16480, 53584>>, <<35478, 93>>, <<12666, 1422>>, <<54214, 12505>>, <<44886, 42373>>, <<20753, 2124>>,
    <<43102, 18829>>, <<39037, 329>>, <<5435, 57648>>, <<50981, 33148>>, <<9905, 30199>>, <<4921, 9108>>,
    <<59869, 7974>>, <<14115, 56065>>, <<24681, 33267>>, <<31649, 58390>>, <<40834, 20693>>, <<4944, 48897>>,
    <<8002, 15079>>, <<53313, 39270>>, <<38263, 56288>>, <<47344, 43056>>, <<35885, 3073>>, <<43855, 2238>>>>,
  <<<<33362, 8329>>, <<41783, 44170>>, <<48301, 23643>>, <<36673, 12197>>, <<24680, 62020>>, <<27257, 65524>>,
    <<32984, 2841>>, <<19539, 433>>, <<8306, 20035>>, <<2609, 64609>>, <<21809, 32954>>, <<1957, 49477>>,
    <<50642, 9267>>, <<7411, 35398>>, <<18893, 6264>>, <<20968, 15695>>, <<53541, 15772>>, <<2506, 57694>>,
    <<34758, 35938>>, <<49908, 64014>>, <<24361, 25923>>, <<20285, 54074>>, <<47459, 54811>>, <<1529, 39184>>>>,
  <<<<3028, 216>>, <<15702, 15755>>, <<42921, 52248>>, <<59835, 261>>, <<59190, 29168>>, <<8100, 19655>>,
    <<51563, 6702>>, <<45203, 57784>>, <<12971, 12946>>, <<21798, 46120>>, <<28649, 562>>, <<52395, 59290>>,
    <<46616, 55443>>, <<19413, 39895>>, <<22396, 8290>>, <<11689, 38136>>, <<55674, 46417>>, <<33776, 34340>>,
    <<20030, 24462>>, <<24132, 2445>>, <<24834, 48690>>, <<1294, 20319>>, <<29141, 7125>>, <<58755, 52696>>>>,
  <<<<24091, 6994>>, <<47185, 7372>>, <<51063, 17843>>, <<37203, 25548>>, <<64842, 57248>>, <<3078, 3314>>,
    <<54003, 29437>>, <<62820, 63926>>, <<42539, 38226>>, <<32921, 7812>>, <<42406, 15265>>, <<1760, 6143>>,
    <<33517, 36014>>, <<40892, 46514>>, <<54694, 37666>>, <<3148, 30708>>, <<52832, 2115>>, <<47487, 34525>>,
    <<10756, 58785>>, <<23766, 39894>>, <<48806, 6934>>, <<27886, 62470>>, <<51080, 56499>>, <<25731, 18843>>>>>>
============================================================================

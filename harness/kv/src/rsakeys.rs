// generated by tools/mkrsa.py
pub struct K { pub bits: usize, pub n: &'static str, pub e: &'static str, pub d: &'static str, pub p: &'static str, pub q: &'static str, pub dp: &'static str, pub dq: &'static str, pub qi: &'static str }
pub static KEYS: &[K] = &[
    K { bits: 1024, n: "b6c5e71a3c628e41e612f13939f4e1ee5129ca756c0f38cd37f37f481b8413db6d9f37b3e35186218b0d5be38f8b14587b73f55672ed92e33e6e82e72f1a30163f16503e9a2b12289418478b2cbb1384ea5c61f81999e235ccd3211906398decea747e18d1c525c7588ce7777bfc14c8dc90cb64e13a103bcf730aeb5e9d6d6d", e: "010001", d: "e1e78f27c8fb07aeebc5a88c282b9a14b5675c95f0648abb1bd7700feff28f9891d04e9e48ee65459058dd4fa6b12b09dce20b9ae39ceb5b74644de79b3b0307b783052512c6341fd2fb8e01c328bcee4d7bb09a3535332e7546d02e6091c576b0c9019f5c7c091b56a4165697c8618375fae60884866529c359df7d26a731", p: "f15de681febb323890d181da410264e9054b9495d84c3e79f2234534f9e8a973377c36c09c37d74bc51149d0b6ea8a5c84383462b4840cc47b21ef2ecb49a57d", q: "c1da9b3b7c8e53d99b39ca5a070717d948728096b977a6852ea92abdaa7c98aaad93ba820ce0a7e09bb5cb1c465a4f530e1eb892dca2659d5caa663b7191aab1", dp: "8bd073f53b649e7bcbcfc0a377e2f627512cedde3b1437609655be0228fd9022b0b260590465086ed8b1e20b67d9c6da3eb0fc0f6d37ccd987e62951f6ea2b55", dq: "bb23b185ecc96d92fdf1fd3189e54415a385be33435a89abba8edecef89d8db7ff17450eb525cf8ada66d66c36528a8f706b21ddcd170d27abc4682aec892611", qi: "207f8deba8c3990370b3c7b0f8c743a843dbee7d181e3498f58207427d221d6ebd56ab9682b4c7ff319f5f5b212dbcc8c390f206dacfa6b00b2b1df3fe86f603" },
    K { bits: 1024, n: "a3571fa38167239cbec3fc7ae806b50ed11bed5a7073ab4c0c2a675a9027066e5e9fd88365a199d50e7bbfbbd5b5ce2095e3d2204a8d6927b632b0230f09aa805a6ee5e67a9b3f6ff4a26796f61938d7e64fbd9b217a9fd2a66416d9254277461b13cfbc4c76bbc62a570c2129e7ea30921b1ab1bbed88a5383aa88547a7a4ef", e: "03", d: "1b392ff09591309a1fcb54bf26abc8d7cd84a78f12bdf1e202071139c2b12bbd0fc54ec090f0444e2d149ff4a39e4d056e50a30561c23c31490872b082819c6a758f8b4090629d54316b2ca56c9e9ae6218b6a3a355385a2cc6b99d7955fb64ad20aaa0b4b94bf714eff0155488a69d0d2133a6aa666c1b2a82cc0756ed36a0b", p: "d0eaf92a2abf4715f69c1b26edf6ca650fb1a0a57a68207439cc8fcf3b50ec810191af520efd7f2537761e968d3fe0308fb5ac5acf7bcccb4cb0ca6a5492cce1", q: "c826a938ed8c4860d583408f7c6acd0e0d599f98671d5d8da211ebfc69b345042d42242677fcbff918e6e58ae9698f1b15f20fd7060931a9fa7d5b5a5a205bcf", dp: "8b4750c6c72a2f63f9bd676f494f3198b52115c3a6f015a2d1330a8a278b4856010bca36b4a8ff6e24f969b9b37feacb0a791d91dfa7dddcddcb319c3861ddeb", dq: "856f1b7b490830408e57805fa847335eb391151044be3e5e6c0bf2a8467783581e2c1819a5532aa61099ee5c9b9bb4bcb94c0a8f595b767151a8e791916ae7df", qi: "45c1253c1a39133e16bfef21b71c07de93bd5940e89fcc39702a39244611348a246afe2ce9ef34d41f7bc26b81c150f918f00e3557a6759d90e7be47a76676fa" },
    K { bits: 1025, n: "01b199c2efcb58775dedcbc2789846f8608da137a7eab02b6f3d43eb407f5b703beb0f1982ca4e7347eb8f15f1f7a4708fd4c19cc41ed74b7cd02e359a1262bfb4a40313990e76d0ec4851dcc04af1bf22017195e62f9aee6d62b39b601d919ccda27aa77ddc49d6d83e6235ccbd282fad936716885551d30c13b165fd4e083f37", e: "010001", d: "388a9672f28f4cb180eacb2732a43e8b48acb7373c5150b8a6c28e90d08ab9edf64ef7c2a862e68180641e367956861f1b5d4bf5ff17900e6c8f3a0a274f9d33b0b6d9beb162b0d872754f701b6724b0a6e19337b48e141c456b0415c6ab1751ed566a723ade72da6d4b36efc7dbc5247d53dc073b34171b0d573fc21614b6d1", p: "01f71dddb17b19660ed1008ecef3fbc821ac88abff2e0dec4ad6935e44983bbe813e871966964f687612d858eb45921c42a853582eb8558921dd478bf0929cd42b", q: "dca0d699899e2ca4b0f5956f20b42e017b9b06bdbbf0ccdd108cfdff570edfc4035d4df77b28b0dbc8fedcbb28ff11e97f0c08c96e27c6603957111168f53f25", dp: "c533d7a9b16e8b2a5391bc68320a06afec48c5e207d33d4338481b3317d8931b65bede9def5cc0bd4735b5e4c2283b1b858ee589aa871c7141a2c19f52585671", dq: "992bc4b1259cbdcbbcdb52daaaeecc7dd50da4d976b04fda2e126488b02d3066ca1b2df4e1f93707ef7c194c8ac2c2f1c3755c6853e4a351cc9d48c93880034d", qi: "01b7215a87f0db512c7b4b753b5613a31b86068655f822a7548207da7acf90ca01e90035a2ab5dc454324dc0098c8b1a95f2fb1b32755f71b18e96a0d955740427" },
    K { bits: 1026, n: "0300b33671407814bffe82e79c2b3a12cc4a39242cc6fe44bf7437fc6decc9980dbdf7f54729a2274ea836b76658a6cc35fcff29441f50a176be9bee6b3ad7d2f1476ff4d16559dd24d454dd919873d44652f0159ec647156420f78b4277bad0d461fdbc983b8f4c8a56bf1f8b398e8915bc2cf7b76ae540a651a0eb3522c87607", e: "11", d: "2d37b7e88b525b92d2bc67fa20a9102a227bd4f3933c222961307842b393634c1a3bc3224dbe3e8c280337f6f627ede50ee1d5403e13cd433863867ec739df3b2a0207803d5a08b9a73db63b26bb487443fbb4680a00eaffda6c9c982d424fdfbe28aa3ef492046668a790763b591984d83e981958ce990f45fe4a12def6c201", p: "01f2b5e11443689cab6915eab97d264a39e0ca3f1b80a8855daa3b427ae2b8e1256cb480bb98cecfca84d0dc560e0227549e1f5f7e4b121e9e27d011f773e76af9", q: "018a9794390ef6ac255025d8ea88ddba53ee6edb9a9b8ef508f585e2ac939aa1d35495edae650e31f2decdab5b3aa1afeec1e57e8a3a1af80483ededfce07e28ff", dp: "017d5de85aca22d228b9c577428ce10b95abe5f405f8f956ed45f114b85305d958daa826351a80084f92bdd5ab37e3877cf1634906396835880053d180fe478e09", dq: "012dbf351c92f8ddfe6a774b862c6d52402ecd3e8549c7ac52252a25cf43b27bbfb9275b673e38081413ca73fa78214a4d2adcac0f599c271283013d8524243d77", qi: "f05e59271ebbe638f19eb0c4264591812b9829ace95659bb9e6e4de9e273ef2ecd4aface4e4b5fb05743ebb98ec6510e9aac24e058abd255f6fd8a03e85f8383" },
    K { bits: 1031, n: "672424dafbd29e36a2f96851276ed4ab8fa5c827203377397b1d529c1dce9e01efa98b0ebbb0b2e5aa4fae956a6c3611aecdfc1204e037d7c7378f0e3764d8cd11e72362bc9ea1a7a5f9818fb9c3e0b51c019a4b53be7751e7fa7ddf5ad1f7021043c6b28f5b4947bfc9d65ca9e3a1a40556951af47ce746043374bee416c50b3d", e: "010001", d: "1eb158505c38e8810ccd9877f1fa9ec9f104de039aa7061732665ef37b4145af00d15cc2c522c791e5b53198602394917d89e9b5b902ba4b798ab4850002002c3be29f4439e96566b97ff5b56956db620dbd3b431454bbc92949b4c91516fbbfe4b5d0f79ff893777b8a3885298c799ec88837e77f0e72cb5f12b5f30cd94a9457", p: "0ef988bfbee235a44b73fcd3d68e1280fe2ed4d8400f3e0739afbdc16e0b3fdcf5cbe577fa99705ef4c6acf65d9f5d307d49fd0a6048b0b1014f62f4937ffadf5b", q: "06e33ec77e6182952357802ff1ef42b8ea79a6146185487448cca9a5a5f1d4e27af20a195a235a17df0712980382d88a9461aca4f2d2167d76cc08d75517ef9b47", dp: "0d015f68d88971f90ca6e18fc1a9861c8da572a99589275ff313d483a7e51144001d635fbe3f80be976bed4fd2a3d3b5873ab90f47ec19b8c0e0879ace77ba143d", dq: "0628042b28095c4095905661846c0945633f4c75171d9cbf637a9b80162d6bcceb7b800f5d04103919fe265e7d74ecbc211894c9f2c85995d723541bb4516ab76d", qi: "0e70e877eb3ec9ce14a2b17cd0b35d7d26daeb5fbead8043d9ca753d48c43f3c37ba94f100c7bd1d93ebffd1df9295be95871bd41d104b47f738f8f882645f5671" },
    K { bits: 1536, n: "c42c8ca3612161154f34dc8332f03bdca3be7039aae820831ca2c27a8837931d531e714bc87a52d771b1bbc3377e5f0224e6fd7a26ef2b5cc3bd52bb36f2ff1d2b4f113fb0b063a570426cd537e33209dffb774a27ac83ddf16d773367b4f661b056e49a6c323f2f0c2d93d25ea2b63e76361ace7ef54537dbc2286821edb02ac4d089e841ca2499573e9a9cf3c62b9e3092e56d905ce7924f3c1aca43123011fe5231cf838ccfd708f05f5adc6aeaf81d20c047306b75086844300b493c1deb", e: "010001", d: "56fec693817473002732f3033fa8a7734e2e1ac888110eb1f615fb96a927b416d21072ffbf74f79dd12e976c9804738f98dbd2d6c3c3568079d15089f371494f1f309e1e9775718b214063d11e4aa39b1b7801cba1d2705c113f9117fbca9563afe1a0b3a2f449e8c0a7b1d228c8d2f7b462348e00db24598b315d5f9396850a23602b925aba2f955e62987052db2d053a1f1e4205a184f24ddf82ab23cc52cf051a6cf702927726b1710cbb346b202926edf4443fd9ed878d19abc0e35723f9", p: "ed34963be96d02edee6094231ab2e73b0dfae4d9d9b5b43272b0337936bf41f21e48b26b52cf38809873b980857ff92964a1e250610b26eb2c7c4c8fadde8a838f7ff4b47d9aa3aa9321b4ce115bca1574d5a0c712497b4c199a24273cd52d2d", q: "d3b7b13b9fa2eb399d8dfa9a7b1cefbfe9e8fc0306ad6370af0b9792b1cd61dff69f873403b82484ca3e699b8679b5c2a07a3e96619c5f667bb99bc4afb84befa94e30cbdb611e0fa6bd9146babe30f9d9688f2551b462e0b984819119335677", dp: "07b3bd6d14974591143c6e92f53af9e720fd14913e5078196b3fed6bf22b23a908f2b35868c7f1bdbb3586c075954231e5e29bc6a0600c53768e52ae17a732383360a44178129d5ddc892ba5c54a85b54ca5e32293a56f2b796957e32e467dc1", dq: "0d632021d50648396c6cfddba6cd3d9bb4feb670ba8b5c2e53e337c25edbcdc48ba3aab8ef43458bdffdf24f93413eecff98bb3c670fac389eba2dcf520d254012448f71547ddf98bdc25edd4a119ca72fc81cc50f5588ab0d1003e158e69621", qi: "d111b041837750c091b3fce3108b711bbc512fe4e72093a102b113ebfa9ae2dca3ae81afd1eeb0c6b577aba16259dfd1d9cc69b1fd596c9247649b05d583f28741dc274556c2e24dd75348f9eca207c14ac737dfc6eada6c53b52adf21a0af61" },
    K { bits: 2048, n: "b23cd76318b5700fd7bbdf64f81210b6086390b4483477ee15f7411c3c47f8e45d8e25ca4a29cbff51d3083280a632366bd7eb6885cec7aa5bc317bc2f1339cf9f911ef0f3e8992893f6b936c5f0b61a4f86740fd722787f4561da8527ccd90a36d96c2d815a9a698b345bdb184591188ed2a61cd6a25e5884d41a86b4bd652517b0078dff6c189193084eb20f4db89e2cc4c02efc15c292af627e76da38ca39708b9666fd63a7d12077bb74f44a170f235b54c7913de5b41b9f3901dcd09dbdeb9c6e0cfd04cc64c7ba593f1f8a153b7187412269188a0f155a59307031a80acb293bb560b5b53ee2d15bb87d2c63666cc8ba9e0b7c81f55fc06bc4e6aa0971", e: "010001", d: "01d470089a78e04d95d09655289d4d1ad1a2639039226d155598324296355d44ea1f20b0f3de00e7486dab06d0e7800d8c750bb927aeffb7528f7ca48dc33fc963d45d3cd0cb95f0b4ba17c5c45cd1f9c869fc4bf7f996c2d273fd10e822323a63845dcb2aaefb4cce21647fc881aaf817fe794624e1140eebe842439e0cf6ad96ad172ed9528ca0edff0a6ab4c79d13ab9e67e5cc2f092b23502b287e8e915d54224268c899d8a0b95cf0552d2e3c610321c994289fdd307dfe1dfdd69be1a073fc69b9b0daeb8f8ee369de1c3bf7e117fe9cb1985fee3ef69a5067543f009cc3bfa3d2735c4cf53b53888d82312c813480bd993a26e7b225e872a84be0619b", p: "e18bfa6dc72ed43a9609674294f2689b48444e2e8f283de228fa84164179653f3bc1f448df56dbaa0ee66cac7737a63b33b38e3162441ee4c7d752d39dd36646720b1b00807137d33e546c8b3f2fc075d45843efe46a2e4ad76bf72e22710f6b7f9b8647dc8d63166cbdde8f63a946945749e620c4f8c41f5d2a1b25a82d8403", q: "ca4d9facc32609a94b28c49a5c3ad0037aeed579a41023590cd8686faa765afabf42681791af27f009cdf77e4db445250f4629467c38aa7ed2a3c04d0cd93960fda3f0f1387cdde3a28d333c6ecee27cddf4a45002b05c0ce96cffcdc7065526c3850b73bf652d40eccd3a73df0f8774e648447ab115adb6a80a472d3ca9347b", dp: "d6665385eb238ec6aa3d02157eb4f7cf346109d8a468e27a8beda785e8735755469ed672372bbfdfe60e101bd9afe2aac038dce000c33482d19cd3b5297ffce6d61dcc6b2bad741db0505c65f98890f0f10b7e7919adfd975333e461cc87a0dad510a812c38afb3823e2512008e2ae9ef062e5091d74442a744b444705994eb5", dq: "9d67a84593d194d2d457f420e6821c3798ff1bba799cd4e404ca9cf7c57a316fc840b31d238d5555bf4b32b6635f502d75a4f198962ec0f9cc8afca4f6ca4d8ad9cf25398aea1cfb710ecc3ec938cfa0b8521146efd0a8cea310dc3810132d4debf328e5f695929061af8d3b7ae36a51da9b802cb67c579d374247ff3aa3ace1", qi: "01059d494eb1eb20d70a9eec5036053df045cff7a33c212009ea33d187b40fa908cb8bcdc5c2ea0ac96bc135c4c4e806c90b4651fabf7f1aecec374955666c28a3ea8880a0a9c527b3dd1f1331cb15b9f8e6b0f4eb64831e77cca33834b78cd2d668a557cebc2b13089c3dd9799a298453a692eae778bad978843ff8ccd342a7" },
    K { bits: 2048, n: "bf5ec44556d1729fa51ff78ec3e3388165e190f10b9cccac7233cfc2303593b62851e89a6ac82c63a0f5daf01d630d50ff7a73e52fa7f66a5191a50d1bc8d693d84633a5e85514be2d9b5f4b06f9cb5656175704adf9d08e0cea2ee0b883846881443fac5835009f145c49f0bddf071ed436c44a44ec9688747acddc2aa387a17699fb87a332efce4a0cf63a6ed9a9f917e9d1409b8ba3d8868b35f750bb4cae778878c67a1bf1e1d67f88e9f6f539bc1c02eadeee1a18261d06b7543196757a977fc9d90c593e6e2c9fc1001b4a769121c9f7804551e555fa024dce510eb344ee5ea602f6bf9cbe3975d48d250c4c160740a87b99f1ee827d4e5ee50580d287", e: "010001", d: "0ad5b43a12c8c7fb16efc0e5e1dc570228810562485c87d009a53a518dc632c740f02641bbe2fa74679413e1bd6032cc4fb2a0a62cb50f4404bb40c385bbb0be6d23c85fcfd0255d011b0761a992f1fac0e41066b0ecf06c6279cdcea653b7e6ecceaee6349647a33a1561905247b2d10185da463431caf20dda38168b8977afc9051835b798165cf9c832c4402f627a0a903d2582a412571184e90c15eb5dae01d759e073cada8f96d129f0267add3558ec0f4a1cfe93240b13d1092e1334b7bdcb4d4807f3ed85bd8f21790e1acfb59dd12304dadb1a7159d1cc2d8c4453c4aa9c305984817c97ab0c532a898ab1426570bc56a016b6270efa4dbdcd1bcad5", p: "dfe43e6ef4921bd2a7622037544900ff917ba6072872f44b20dc64d2761104887080aa513c68adca09acf9cbd1e4751ea0e52adb7dfb61b6c32159821f7066998bfc0107273dc561608041bb4a6a16f0518374d23e3d41749e337c307e475c71345c0d45bbd4e0a47dfb29923f0d7217a1351769ad7abc14b938819c324eea6b", q: "dad08fad605e63eeee3cd299b83d7a33c98aa60cca8162714ac6e41e0f847773c81573bec6bc09cc28417b9afe767388884ce476e9cfb4b3b56410a6d6c0d31995914d4c7ae512c17370df65f63edf71844bd59370788e760573d1134101158f4b25d20ef679a5d6e70c8a2612edca15ab8c035dfe731c173d3f507632d03755", dp: "87c243a54e0186836e618ebd5e0b4262b599af6be9b802afc7863c506dad15fd919243342d182041412ab4f1451d6d731c06b9bd0c2030f8fc4b2d963c7010968c8e4b2546432b7b47639df7ee40741656a70a602dc340fc70ad3161ca40852a53a0799fce2c5fe6fe491cc5041ca810f1fc5a6d06f74432a0b945c62baf346f", dq: "49f0e43c502e5552ae0abb97da5c5be91817d418ca6d82588a4e3f53b126b03eddc3f202eba12b26640c0cbac97639804f9ebc2d3ac1476cdac4dfa3a13a339b97a12c1fc5ff96a0ec639dfa14861677839f24a2d804c50f38b474582f453085e57cf848ba1d4d5f1b606f66824afc58ea493bf20d43d4a03dc0216e6fa950a9", qi: "91a71c7db0decca47e08a6051565b40a9b400164835b73e1fe253ad07de2481ec44c4ee6594265b3f3e4d723dbe66ad7bc37859b5997d59d68bd09aba518f85f9ec451385d89679584aa44b1aaa7696f8ccc09ce3d9d25b485893b951f11be03e844616a1bd9780e2ede0f704ebb3488f26f15dc2b11af531b42663fd4325aa5" },
    K { bits: 2049, n: "01a96994ea4af096a14d2b9f79632cc835604f2c2212fdf823600392c2bd2db0c190065d5bffe5671b887558cb2215aa2eab02c674ee30b1729ee66b81c029263b63b0600caadad6044be19ca9d997f187808d880d4f49e15f0dd4123328610bd0cd0bce0aaee0f6376772b17adaf6c8a7c8a237446848ff329dd1cdcf06668762709a59a92cdb33e70ec8094c8c65591e9f0ffcac0ed8bfd61ba52efd7e66f1698144687eeace36702c086b756dedf93ffb88f8a4ab4f67996fd49c66983bac57d89e9d6c43b5f766c7c0c8e62ea0c93a407f8ccedc03f1700bf39861612d60a726d41fc8806552921ae6e612a8410f5bf5ea25ba488f07264c6eace2cbdfe573", e: "010001", d: "c81dd7a4633e4bcd730cdb46f1e54604fdda208ba2dd7f95bc7bd1d4f3c3038bfa6154178c07f0f9ddb63ddfc897e26773a0a994a5db980db03bfa449e0d7d63a0a07e7e56fcfc8226e3e99b68b57633e4c02f48fb8c688d1b67306c8a492492c3721329a95c3fd68e3e40c8e72a01f813846375358d6926f960916d1ab8ae63d130c0bad629d6d8a3f3598fb3ea1ac82be1f4a728166ef73ca93e1c17b2bc38d2b813b3fee0368a620f9f43c81439d1b60cc8ca2aa6817edffcd7e6579bdde52e74024cfb1bac03d75b6fb1d5d6724235ff39a1cc2424b795373c9a71a94212b8ef3883b1fa01517268647ddd2d77ca6787bcdb5defdbf6b89c7d5dbd5d5f49", p: "01d616167c7f754b6d5d6dddbc60968e11717ea39c53ad07e6cb1fb869e6df1faa75da671d255890409b18b8a004cbc252c59d96c32e7de3681020f7105bcd7992d068fb524da91311759716428b1aa644f23f95ad0f977143af746af786829b5affcec2d67d38448f66869e6ef7045a0f9d447bcfd9ddfbcfac3f8e193b75a43f", q: "e7abe5be2759f5712878a860d189bb7efc3de199de3fedfee98ca3bf2e36c8533605a64df1f77188c9472d5877c1b7547206ed7821fa101e433ae8947e870c308193c8d6cbc95b0427e4d558ddc5f594969f6e0291ceab9253390d7efe5e2d91bf419a9a2fc52ffe9ad170009d89a09084b4ce88f258f969ef8cfaa5a2b0e1cd", dp: "5dc716414be408620eeb65fab88210616674cf0ad69e841f049295657b0b33f3fb82d0633e1a06dcfc93d7f10443e9c63d6a0cb36f48e9decea8e4e0bc8fa71b24bc6cb6a48b802451830c8bc5d851271bf4975568f0db459770f00de52594fc785fb4fab90c4a9118f0ee1650eceb52861b2d5fefa49b2178c94cfdb7a0e65d", dq: "5c0c11792efb7028a8b2dffbafe57088b0c2097bf03128678af5e52d95b81079f751e154c0d9d6d3495dad67a41564b8f9a14502e14510d8654fe78ef082c9d60ff5deeb7106acd206e3c5dccc28d63d56673bf76b6559080766f8b4c76e35deddc5bc1e9cf254f26d22dfc46ed37ae750c2e1f8c9898e7787c554e530b1e4d5", qi: "bc4547b7678b9f0e95c5b7a41137d272a090af7a4e0b02930216974d56a43030d3c0ca6bd5c9204b19ac15d5b7f258b565945bfe7c04e29e448d7599fffbf551380a63d92ad423a5afd8fcb577a10b84b1a943a4da37eafad680bd589f5de7b90e5dc8f55c7e8a89d847b4ff0b53e6e51e8b884e32823c67deb172486d7fafac" },
    K { bits: 3072, n: "c67cd062bc20a28fb6e8708e9cec5877da968a55ee8622ba2ad8d0438cc9474ef1ffe455b719112bbd3180656ce0aeb53c9af80bd8018143d1eab72ad3403369f866c4b8f8d73278b090d6350267fbac9304f45786751595258931771f419f9cde2818ba72ef0c1d33b4828b337ea0b4f094b024cc070fe43574458a2d65811843797097ecdfb357a02063ffa172dd06f984a50b1e38fbe5b8d0452e33a09162aa3f6a1fd6125b502ec6cca02f554ffe3ef94f70efd06764d6fab79ad2599034d4fc6cfa0435ab59809353c176e61ca9cb65999c88d98030fa09a786e697fa892c2b8bc03817a943f84be5625e77509e82a3af17a47cd11b38148b1e899fa5ae7fd1a357ae9acc3dba4bd9136f7c41835082bc5f614054c634cef1ba22352a818de2300f238ebaeb5353a2db96f2bbb3f5aad3a54c19ecc3f35a39f47ed3f3cb98f7678098a7eed848277b72e1a5e185f270cf74c27f1ae0824a9ab83fa1ab66f3c2ff20a07cd9bdaf65a546ff9922913ad6c3cbfc91541ae3b0f18130c2c9d9", e: "010001", d: "01b37a2463d107c8f6dc011d9d1cad6ec187296d03c6a484e1ef1fc1cf1d6928b50c3e0c64ada8a703a513f64a90ebb90e943ec1f88f9d6853b93b93f8b6d9249f060a73920bb8c4035cb513ee8f0394d40c667d058afaacb4e35072e13d5d127ec395e000877f46bf75b194b87e97a9555280e69fd503a984b26d677a1774f171f542d0c52d444a8ba070c59fc04342ac601afb55bea3f206667536a87c9ccd08012920ad6354e302b39e21fffb2edca7f4d7b31e6b0927cfc130524f0688cf81e647d3b2e1f52fa0927f5e706564993b7974e54b20091f4dbe165c13659fe0a12d95930d8e44ace00452b92ca7957522f66c00bd6adae9e665a8aedc482ca13c3ad2346fcef59c69173c4cb9d3fd0739bb49470d28c48407c1897105cbddb76da2c9221757b9930b23447a8d7a632045fe4354340552d8e0545eb50a43d4f129ed6d319ced5b130f592aa749c67de793ffaf67b2e1671869521fbd48525e36afeda8cf345fd78ca91f0ace4e9c09a03b37569402eae833a5b24d972446ed81", p: "ef0b6fa3a3f17ceaaa4463b85eff59e7062230322399845079d375d0aab6e27259b3f1aa3ea8b0852dfcc78090135bc833a298bb80712d0f7527a34f843c531f085bee56ea8cb7454ee09fae8de4884cfbc53a499d94017de7771de9f990d60dc26f9569673d6d71a363920d01fef39e575931c871b73cc9c244c9668d3c69bfcd8d418e2ed1bd1ff6fe5d476529a1c5fb33451b735d45f65c24230f220218bf8ac3271d39084a696e07812b86bb93b22fc96baa599d1cfa5cdd9447bd5ac989", q: "d490f17f12c98b2590d1ed5467bd972d166215aa32342c30056d4c399c7d9b8b2c9d8b839b8c0964618a2ef9a3813a3e7dffe33cf4ad2462accafd2555227d37b73e82bfbbf9615fb716b9ca9d81c261e46231dd5a036070be4581843ce62f6643ad817bbd0256648c65878b99d7663ebc9cb0b0f02cd018585231c5ddbf66f3d96d48919464184f7206a113bdea3d49816025e69fe97a255d0e6f6c50fb8cb41b82785c32dde198ece0fc248cea367a62e947696cc0a8369a4b8f9d2d2ef9d1", dp: "4d33d654756852bdbf4be320f29d69bdb13f6d6d640dfaabbb0cce6a1c1880be09b6920037c8676a3bd5fde0c9a756e72bb601b9dcdbb07fe3886fb808af2af144d3dbfffa348424403b4f972280827cca7b823db044d2ce84e8f5a25155b3ac31f5b3bd9cf83bd68dbc64b90ac1fa9053099d886d218ee26279b0ca0c274cc8036cf195280dd914efc26b01d9ec3e3120d60825bb768e57e89e4b2c62016758c54a0de1e43f8738d1ae5ecb5df24adb2b8fd3d3eaa95168928185983dd18a71", dq: "0a6d7ddb5d019418e8acd3b6b34c22b16c8aad436729160dd9064e99f8ea548a144b3a3fdf8e941b5f8996da5a4209a86d27f36ed715f355ffe2095f1e790da9810cc8ff3cea73f36d18e94e5e41b256790cb42386b9e9ae3e374cae3f0a8fc2b5893a73e686c9d42eeb0026420ac61247d06bfe9219b0afb10d7f3194ba4203ae63e50e77381dd52fe3d15d1590fb26b2f91382e7cf5d559de60a6346e9c03249b331d25c107473bb13226b6c9a44c7e638496f8b8d3bf349c8712825c24b31", qi: "4161dbefcbbf741d2f8823309fdd75fc5d9844893e8b0d260b0a519a37c2381844050b29a75f1a6dd1cb1d6f93470b6be02c9849260302b25dd1f555291120676d81045cd7052d8827981004039274e4e295c719d3f894e1f959c5b3fae60e6f13c88b3852da61aa1926cc9abd8b4bb383100cd2e2f8071221fa3229ba3721801be9a69b9b5c3440f7174901114f64000bc0983ac9b29c648e29502e9116e52ad3d7b7a179f8cc6f50f5b33dece34be2d03c4a2051a99a0e4e09323dbfb87fca" },
];

//! Fixed RSA key pairs (modulus bits, p, q, e, d); written by tools/gen_keys.py.
pub static KEYS: &[(usize, &str, &str, &str, &str)] = &[
    (17, "ef", "151", "101", "2b1"),
    (20, "35f", "2e3", "10001", "57d1"),
    (23, "757", "da3", "10000000f", "21d6db"),
    (26, "1a3f", "247f", "101", "685571"),
    (29, "3d9d", "4c0d", "5", "ea4290d"),
    (32, "fee9", "c8e7", "11", "bc45e61"),
    (35, "19d27", "4a7ad", "3", "50220ea5b"),
    (38, "75745", "7805b", "10001", "48a836455"),
    (41, "8622d", "2742c1", "11", "e855dbfb1"),
    (44, "2da86d", "3305c9", "10001", "103186ddd61"),
    (47, "486e23", "13e2491", "10000000f", "4032a44344ef"),
    (50, "1ff54c7", "1d5faa7", "101", "16befbbf8687"),
    (53, "24ad6f3", "84d76a5", "11", "11e9af3a2c779"),
    (56, "ec8d203", "af7c387", "10001", "3e155191e76431"),
    (59, "1d9e4a19", "42358e7d", "10001", "6d721b256a7c1e1"),
    (62, "6cd8afbb", "674c248d", "11", "1f00a0df87d55b91"),
    (65, "b6e8b37d", "213cef75f", "10001", "11c209955a1b96c71"),
    (68, "206d1cee9", "62afd7bc7", "11", "11a5b529c15a4e599"),
    (71, "652c62eef", "122c7b3e93", "10001", "1440f24ae6af818a1"),
    (74, "19f3eff9fb", "22036e7e23", "10000000f", "dd7f6907c7b2acd10d"),
    (77, "30d4d11143", "816332a58f", "10001", "17268729c6ea97a3753"),
    (80, "80ea392d93", "18b8e45e969", "10001", "bb901bfeff5038873fb1"),
    (83, "191a21a95c1", "31a73610fb5", "10001", "681ff2dafc8217e0c101"),
    (86, "7cdbc8fb429", "48cd8961327", "10001", "7fc0a23f4d2b471cb7cf1"),
    (89, "8cac476e987", "33bf40940e23", "5", "b5fc419e6d6582d7368985"),
    (92, "3a6b5bade317", "2c25079bf6d7", "281", "6de28df784a312d24a07e35"),
    (95, "60387c345977", "b71bbd94bdc1", "11", "1c56cd4b58f129928ea11671"),
    (98, "1252403c8d321", "1d13bdc4fa5a3", "10001", "60598363c8d1d2192702661"),
    (101, "2a93735a384bd", "b09510821eab7", "10000000f", "113a2ccdcf6b5fcace32213d3"),
    (104, "d5e42dc76d22b", "c458b4ecd5dc9", "10001", "3279f2f56b0a574007108dba11"),
    (107, "13c65c98e75489", "3e36cd8f6c99b3", "281", "3e233184d8b441af34b356544e1"),
    (110, "4f30c8adcb6d63", "6864b2fea6a5cf", "10000000f", "1dd22608a3c93ff8c97521384c67"),
    (113, "e68dbe444c11f5", "1f36e48c8edb757", "5", "b3ea3e87e1958c6612536d4fc7fd"),
    (116, "2b89b156e2c71b1", "4b1659e6e169819", "10001", "c0ed2240f69af3b9b85343fabed1"),
    (119, "795010752b2a8e7", "c259792579f8829", "5", "150d0b9791bc7c296d0e4fbfa7e75"),
    (122, "162cdd1b29724ca7", "25e9d4c2740005e1", "281", "16bf874c50b0b3b98a70e94271b7561"),
    (125, "2e969dfa947efa59", "8c86f058e27ce8e1", "10001", "865c68ac60a592f2c2700e144e0d01"),
    (128, "9150aef13818af5d", "12c4725fd37627fbf", "101", "677693a4cbe3a46cd6db0b3a02f862e1"),
    (131, "12f85a5f59c06472f", "5d57064af4a5e03a7", "11", "1a0a0dec25d1e70415fcaa41919d59341"),
    (134, "40a17c14f31598d7d", "b08ceb3e9a6826c11", "3", "1db710ac33b700c23648fabb3b6980c52b"),
    (137, "d4cefbdefd85ee335", "172b718ab7c6b19171", "10001", "1d9750518d7dae52b98e8ccce404f351c1"),
    (160, "bd977565d01cb44fd703", "11b8a8586d69fad1f894b", "101", "49f200608a29baced43311dee1583c484d0bad53"),
    (192, "fcdaba3fa9fba7469a45bd5f", "d0b680e22b7dbb58222aabdf", "11", "c205a01ef538f0227b422c86d2227c4adf480c677421e35"),
    (200, "9cf17ee03c8d106a328f3fc35", "138e929aada1537cb2e13b6a97", "11", "70d7cda1a356449f659cfaee9de2010120a1ef1a1f70cea6a1"),
    (255, "6a42192c1e9a4863571231024d250e0d", "11627b7be07d5660abda13e13efdce355", "11", "1977c3a225f429d8d1ed9a00d447871f5ab8952295831583236167353ec72875"),
    (256, "bf2016199d2964ee93cf48a19d2d8da1", "c613980213a91cd0547fe3f69535915d", "10000000f", "1b43808793fb18fcd78cdd2aa6091c6e7db80e8403098e561f1694658029fe0f"),
    (257, "d29d78f4a3785793966850a026f8158f", "18d46c0b3486f1b6ac007b89e6d8a09b1", "101", "d83382fe43934381b731c78145c29ac904cedc5de9c8229ce4f7198ad6029f41"),
    (300, "2f59179fa3913e0b7c26cb08a6aeca1ac8e071", "35aad4851707a7b9ba73304e20666e50726f91", "281", "537ede22907a9888c571c899d2663f232194c26af3640b2faedff4145f112d52de547873c81"),
    (384, "9fd5eb5ed351b6ac44c10c695a70e6d470c4624567e24829", "17a05c6771828ba13b6255d8b0cc6995ebef54c45bd205a77", "10001", "7e50e4a16ac0bad9d4c1418d416f6187c9b0ce3a003130e4ac31cdee241f2cf3777a0a3fadbc1791288ea57b8501769"),
    (521, "9cc21e1e9bf9d6f9e37b8f14dc32fc5678db99242f6d533e376e7eac423d9bd57", "1e59a813fa777baf915cd73ef74bea12b27ed8ea8dc0dcb0c84f89733c21830d97", "101", "6dea9ea07b648ce95866092c19011c485bef24242cdc679360507e4c8d49e03091bfe5056cb7a345247231fb47939b5f0859c4f58c088047a53c88e86cfb6efa1d"),
    (525, "3352fd030932e2cff57df9a6a2d4554d86717cefdbf76dd1b525d4cce7fe3944d5", "5eb2cf264178603926e59c74c6cf2771aada8265b8cb751d940d074c087d587437", "5", "f3041b572d03cca0548a9e344e93805bd4c600eabb027e491be8e12ddab6eeb3607e1553e6db4dba40a82a06dc3df6b57480d7d4175cec4efebc54f073d6683aa2d"),
    (527, "40b6dc5d0a235b3b34c21508e23274d71bea6d073c57e957cb8c1aff65559a0035", "ff9d1923d1408223f2b2f923ac3a377918b94f178b3ced835afe259416c3530801", "10000000f", "6e247f24135905814665a2e41ab36ca5020b73a818385eeeb6f2019504e005c56fc2d780afb7b6356424f6e7aad36125ce68f9eca3848dbc89a80a2418c01b616ef"),
    (528, "eda76983d65f24a19a84544dd676bdce837b3cdb85899ca086132e75083de0626b", "af5a74437e22055155ef617453c1b76388600560fccde6e1f3647c38b493837879", "281", "4a68d88d3e31adf66560af8876e77ac4eb4c74c4078660e3c4c87d0267d70454094a16f2ecd2646c9cddb361f0c88b94fbfa90285cfaed59148698953222257723f1"),
    (528, "dcf379afc1d108bebaab6e615f180ff7ed86411585b768d254fabc86ed3c4f8181", "12329bf6ae3d57f8dc68040a8b801358deb70d3342bc1c34734ea9d96551ef0b525", "10001", "6b83cca416f647030c2a4f498eb3c547a50e1f2d0909efcf9ccfa00a14db1f949a94194b49b1158aa823d88ac70a4280f4a4827c4cc2f91f59224bd6237c5f87fa01"),
    (528, "9285397422bef4dce28a20503c39671fd938334b66d9e4f37b924908d3dee82d49", "150e9bcc694b6461112b6cb3302dca0ec0d8dbdbd59a7d71529128540279ea0a821", "10000000f", "1b7d5dbaecfe0cfd03b3c0e108435c161563df0a926981bc2b37ac1472842a6906dabdeef53ab0bd081edc4c4b68a8e48f12f2e90c8625c97983fac1c419565a84f"),
    (529, "b2b01809cf6a325afcaccee38c2f653af08e5354104fc58050af5bfd33fa75acc1", "2ab31d39c614a0d14e5e71b38f769d4ee2360de9ad151e193734f9982c982fb4bf1", "281", "1245eefe1d7dff84a47e4d661334425cc35e86e0d66e6454e866d149532bad4274f47fac84cd8c00d13abf726c79798f9946d6068c5aaca4d6b533e6b72a249c21181"),
    (530, "116cf32f2301320b7d6822da629dc9cbf8f4df552e73209dcd956f4fedd5490e907", "2ef8321a55d39dd290d94702320625724cb01279ca121327b9a3b3de38b3e347dbf", "10001", "a7c11bfc215ab0c460d2638aad0d5f99667ce7ab6ec8b64d2c152ede03934b942f69909c189ebf72e0a589e5f9d462511469fd6a743d7b0ad869bfa22ea5604c369b"),
    (531, "18bb893af331b58b0d8e7943213d6a9d9fd15b06a67824ccb758f4b8d7a77128e25", "41e845aa99cd281ffdde04bc4d6f1ff2d81df7a670ad765bba816cc8608fcbc21a7", "101", "41e495e859307da7f4c465a5d714ae68c9816d351039cbaad5cfe2fd62947a90676def113fd8f2f92e37ef78a1c748ce7bd5a002b3d0cadc5b1ecf829191861d0185"),
    (532, "3ada0d988d976dcbf2172b1f740b4fba7569b93c819f704cb1174377e24dc469703", "2ab694b53da1d1a756d7bb1183f866591dcce2e5445ce6d225240d773c38e5cb469", "10001", "8c34c6b117c5ca2190576e3ffa58a283cc993c032b09936132d4b337cf1a203e6c449053590ecbee4884a46dc80e46a42dd2f555bcffc7918f744468f8e48617d1fe1"),
    (533, "28f2e4fa5a3f07f561154e93e9530e63228f5b5105de2bc77948c1b936495806a41", "9e11a0536678a419284bc216527f99284d4993bcccb53ced8914fbc56c3fcad9b83", "281", "145a7f72abfbdf8baae7ea272d885ecb2c186546fa6892bdb93ea8ae0a10ca8cc68f3ef8bc4e4c3b8de87418f8ab8554de96c445ad1a33324e1b8a44383caba7ed0f81"),
    (534, "73acf3ba9125e23aa8c11d5d7f79a22f7ba49e02370c6856edfd5bb786815bdebbb", "6f4ebc49bb2a81c99bf3ddcc33e23622bf991337856720d5680fce3f8067db2e2d9", "10001", "1dc7934ade5905c8083ffb60be16a981dc30b63adfd56faa76e03f9aea2fa8071617a53d82761809e219627bf63f18ff01cc02ab68f262a5a97cad82422640bec41"),
    (535, "7eea7ac7d214fa3c8d6b80b26a399358d933381326942b3081bad97647107af3031", "ee8c3a35749a21162955ade78155eecbaea926dcc5ad56502079236d7cd5669cc1d", "281", "cf606b1de156ecd1c1ecba938f101ec97101753838bd20b8ff7a7f6ee01df4a79f17b34d76968a8aa62c7f01c205fb3e162a062ca4ad0d4b8bcf5a6545192385e8651"),
    (536, "84f1875e8a9edb6837ebb1283880a688615e06ea398c0bf4b69e24b9945aa23e025", "194b4fd559e20476c256725b3946b0a3f713c03dc4cac97b3b3b41e508deddfb3c43", "10001", "df11de3eebbbd2b5f2aad4489cde2f8703db2766f8cb61705eeabae2557f97b028fcaaa05ab1011ad0c253dab1a137f28d81616891325977b811dca1bb9f30eb5c63d"),
    (536, "9be915264d07221a9feba4d5eff05a8a94460d8d9de1870093d770e72729aa6204d", "136fa133c1e325ea264fd953d8fc37ad12512116b450a349b37685150c5274ba9c13", "10001", "3785dbe02e633be7d37147397eb5353d54add8f3de607ba2efd7fc144ce3e5bc4d64c06aea831b8a0d72e213bf24b1f8c7df92c24f5dfe41e62e5d486088a04bd35d79"),
    (537, "ac74622ee35e7cd7b70fabd46dc55dbf6c551803934ac1954d01a38bf8443ec052d", "19c3b6d4097b28ec6088e3c2fd3a4805e67dba609b583409283dc2d4e836f76e0b5b", "10001", "9413b6e93ab081d0d1d658a62038a7a4f4dd2dcc95210cdcc920ccd1be116ed4a2ef3b8e2f4e07aa84a890c867397d42499caa5aaed887bdf5dee7dedbc725bb06e6f1"),
    (544, "bdd9630c4ebfff75af6091938268f6566bd7ca20a39e6278db2e9db1f001c276f9a3", "c6dbbac2c4632587dd5fb363535cf373f9c25da775e17c33d0e70291a90496333cd5", "3", "18942e589b214e2f45eefc747bf155e89015b950c10c00208083545a5d9a7ec04b6dfe6893b3b9d542ce20db16ad355e8972fd69a1e1f62358b8ff18103813ec43627307"),
    (545, "b45943306bc74fdd59bedafce72fd30f93e752234ba736094cd6bf1f230c306d11f3", "216d890c2a8c3eeb87fe1367b22be52fd2470a6dc2d2bd328bc73b3474ee3db0486a3", "11", "f3ce7e779d0ffffc9676023c1f10ea3bd15a22aec6427499c2b64298f5daf6a4d89b209bbcac9f37258842f134b1540f923fe874463893a88a8b1fe5419fff4751e422bd"),
    (552, "c56650c15bd553b17141fd7ae5a45a19c3127d2914117c63f937ea6d7bf4ed90b4f97", "13a96c88e7d25dd2ec52975f7733398bb27af90191de3dad9f63857b245009b9d3fc89", "10001", "8bfc71dfb8e5dee3e8f1452ab1b93cddbc63325fb9ccce230650af99ac55bb04d303d310cbce4da233b15e397f213a5cd870064a365d9f7b527c70927af37a058f16651541"),
    (560, "fbd66387693c65d006abfcb9b1b9de3cfb60a89abed9e18701ccad05afc52f2d4b22fb", "dcc42c3768df6b858df4c564ef0e14d6d2403010983777035aa694aaabcb47944eb945", "10001", "115d201ae6d751ffb17b7e9ce94aeeaa80ec98ffb95764278fcb9ca05e34522462a1cece1b2380bc2233587afd8636a726d7c8b5a6a3d1b4819210d0ca487d43ba60bc670805"),
    (576, "c2e02e2631108eb3afa59d43a730fd20b37630f44ee6c22469fbef5301f839a920a58973", "b054e1a5dc5d2c3fd225dc826334974343ea893c8dde08120df739c1e77f7da3cff592e3", "10001", "35057bcb935eac0b8d97f721225ea009a1d2bd3b5066a291b37e5c8298e30f6b8063d7887382ac6bce27add51c64c2af7960c9b33197f119b981fff38e8bd58c069a27bf434edb2f"),
    (600, "af09bdb9e38010549282553960b879755320cd5b87482edecf9101ea932323ff7430f3c9e5b", "150a2bd4559a16fb6988af7bbb15dafdda18bc3febff4d788258eb06f7c577106aeba82e66c9", "101", "2dad19ce67b4e3df5ec2c3a7adec61826321d0e79dce9235346025373f830d8f7f6b24f7a9b22cf759538c954d389453753c4f78f83bf810134e1757f71b79a209427e011242b5a09534f1"),
    (601, "aa43e23e0f3b2aecfb71290993caa53533ae9e6498b6269c59b0663deeafd7d24f2b0a09657", "2bfd7c3d4f4e3ae6391b38ef31e4340114a0ec22612ccff2d1d7e6dc6f94a153202fe673a0f7", "281", "cb63bc00fcba43578cc6079f7342c4fa127e339960bb31f42fed13fa3e661e9c4eef7bdab91970a9b39695071fee3e3f7d9da05104da33a17a91ae75da6c6c8d7a9c1c0bcd15088500a5eb"),
    (640, "9513708d55de24afde09a9746ea9cb4ec78830cd54eb6b71ebaa794754370b880e070d170092e45d", "12153e9dbba76c5003800ae540aaaddbe5b0f2cc2d1fde6fedc62b8d584d856e9562fef5026058cff", "11", "b539e164c76fae346a57ebd07c6a892bce4afd0f3483cf9e9156bf33209483c85f4b44ce97450d36e08d5d935537864b4eb9480d9045428ed1caa35a428458f1115397f791c9122982e17d7990978b1"),
    (641, "ed31cb3c8fd0e611ee65afe748b1495ba986d5057779b92f82731876aa96085924618e7659dab285", "1a2f2fc3000141ec4a3ef8635190403cc55b1e765172eb3bfd52cb57cd8ce6f1c1bc57e9310553703", "10001", "f6fee563edaf374de850bae2d38e068a1490de2696cf74538bf9ce2cb8e014d97294ec399893d9d538d60b496253b25a1ce57d3d592cfdf93472f5b3c9d75ce3202d4e17578f43709cb9c6c114f3fc9"),
    (768, "8c329f1bd185c94dffc6fc3cf57ece2b515c6ce0d9183312e7ad57cff4fca05c6a45a47c7f65ea7b541560299ef47ef1", "11e24bf17a225b2a2bb2ad0c590cadab8a62ce2afc36ae9e497d158dc8438536355eedaea08a7cb3d5f756682d858b001", "3", "687873aec6b2703e01234cff388a5e2a71009ad8541c5b7500b5a608727405a26caff31d9c1100cc639615f7b22cc1e344896b90595825a4e7046453f52e09d3b4513730ee42cdd4c8d4a1719972435c9c31bc90eecd6332b8a3c1897bd8aab"),
];

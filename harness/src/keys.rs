//! Keys of reference peers with unusual encodings (any 64 bytes are a valid encoding): (secret, encoding).

pub const SPECIAL: &[(&str, &str)] = &[
    ("52eef6c11636b54b9ccb3775160bcd87e27bb9133c642baf61fd5bfbc27c3d9f", "0000000000000000000000000000000000000000000000000000000000000000cf9552edd71f6495e1fe8567204b1c66c50e1a8b93407d7ab85e516eba9c074d"),
    ("7cff6e9fb8262932dc343df6b83881e80981a42cab2d3d6fdc37e45b9dac4424", "0000000000000000000000000000000000000000000000000000000000000001c10661ba88e36cf71788fc6e54bf1a96e84232c7da30e394838f3c6e29cd0ec8"),
    ("0d0e140220de588195a48c74b748b9c9f3630ce7cb511527b4eabc99985039f3", "0000000000000000000000000000000000000000000000000000000000000002d4bdae9fb8012bbc743a0493ab8359403ab0cd82f6d07a9af632b539691f82d6"),
    ("bd7df142199413fc12f2080ec66928d4273c4c6bedb13f36e72f363368e6dd1d", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e9f2d44911ea7cd29902c2ee874098ee62bcf8653bb70baba747526839ad1f17d"),
    ("e0f58b6f91dc8055b37148e5b5ec2cca74b73834e5a5d57e84413337136a110c", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2ff84ef90e5f7e5338174c78a33d80799d3b6bc3e59dd44ab2ce28ba72651bac88"),
    ("3ad2736c5a4f563ff7d63440f2c60c76f414257b5c0d2ad43a434ea3a810b2e3", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30d1c3db847ac55d7e75ea4381722b9f6fc91efba686aae94fcd11dc874522ee34"),
    ("710065746072232b8cf35f2901d6c6858a60743514c6bd776ad2a10173ed7580", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc3177415304e16eb23c410ed86629173f01ba9eefbf4a7f3975df70d078dce47782"),
    ("0008ffb5bed4d04bf4ba831389c5172310b2a715b465fa8da1f77c75b4747667", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff8c70e9858c04cd14ac751ba85b1f87ad221550534b92d9205c79efcb3e91b00"),
    ("3206c95104aae10cf26882925eda9403d3b6b3785ea758b390efed0f9283fd7e", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeff7f1594d8d709c9c9e02a1ac454083c595695bbfe54fe6cd99ac4c1761090b0"),
    ("6107bb395f53aaf7f87a61868912cafec97df6fb3e772500344d5b4bf9d4f9bd", "f9beb4d9da291097dae2152b149166b7dfa6bfdb27c895f718ed29b708739378fc9500fbdecfb5a6b6771a581257c09f814b93e619e70828fe62669796e54157"),
    ("ac8a87a1003b97366905a3909b522b73d5874e9c68f697c36dc728253aa6ce65", "f9beb4d976657273696f6e0000000000ca437717733cf4884b39cd6c9b4b4cd428eac5e2949966b7a34745e0722a567352f213723114af95d802f1a023e3b0e4"),
    ("405450fceba045907e09e6ffd2d0f790c42d68a8c5605df01755b8125b838a27", "0b110907c238f3575ead7a127134dc01dd2dbe43e19119819196a72fe52eab345ade59b15d5765c523082afec945b4d43a89fa2dd6f9c68fd303a021c9b83be6"),
    ("b6ad1654d68fc3e30480e382c5eb105c26959dea16e97b1c36a17f8dbbabb437", "0b11090776657273696f6e0000000000be5c4b5ae79371e026ffe15aee8a7424b3bc16a777471bbd54f6a8fba77f336c7b88ac5ee70d9ed1e7e6efc713d4249b"),
    ("a08571e3f7d25e713ed40dc02223753c477eed4ee7dcc02278125d5087638684", "1c163f28171dcea1a0072ab3baec8865c5bfd3c7927ac1db47133b4b24938b92073e84c7a2eea10a99431332c9ee8ce6e68857fee49a8aa9dc2ca4f0c388ec8f"),
    ("b56795d284d049aae6f3f4fc819caaf1c1efca62a9a4b7f573192109238277df", "1c163f2876657273696f6e000000000040cd6c381bfdb8cb57daa332eb44a7d8ff6f4b6834b3cd8741b32b56c32810d852e189f6756ce61c19c7a615c0617564"),
    ("876b50522cbcd802eedea44dafc927acd9bd4700a03507e6257570b16e707a1e", "fabfb5da2915e51ff9c1be75ab29e6bcca285f215f7978772bea70332d8d890a8534237acac65f27015fec923a7a554c20286afbdc7feeb4a59ddadcd5218d08"),
    ("c78fd0af0cf772f81a622208dc127a868fae902def78d8335d48d5a9f7b69124", "fabfb5da76657273696f6e0000000000af9f83b76e666e41abdf12d9e7705d295643792d9f4dc70cd5e5a21e4430d689e950d308ad87d277e4639258a85dea01"),
    ("65532f16e40feabddf8d2f393dabfacbc81cbfcb205c48fd47fedf10b1bb8567", "0a03cf4019ea33a94aa6487d9d7d670c89423e8de7ae2c03a084e47f51b5e5f0a5903f7e9e5fa723f367af90b33f1b8c8b1ca51ce49bbb96c3f7d94f4efba377"),
    ("4d037b665efd76430f4366f4ccbd44b51ef7695ccbbe1e4e0faed7735d00db36", "0a03cf4076657273696f6e00000000008566595a10523a9d21aa9c0ded5a47c569ce5f4b7d97269a1dc5005f9f1e1ec792b8235308cab3dd07436165a7666595"),
    ("d6213e53103367ba18a42629788fd54df8311e45d04c6285dc73061fe5ad738f", "00000000594ec99a181ef7d29da7574a8a2fd9c3b8945a6ebe0e80cc307e0534d1c03ab64c6df5b36567d49f7c14e674cf0fafa9ff8c1b56b521e68d4603d3be"),
    ("acd528f385c0b748267ee82651258507942ab7e21a21c2c2cf3e41f3844edefc", "ffffffff18c83902e680fc63165f16b352b5e1073be5eb548a586da1ecb9eb0892c42a125d07a8835ff14defbd6af0cd916ce5c1a85cbe7146134aff84c7c85d"),
    ("0f447cb18ca2d97737601e1634541eb4674b011ee2f6a82ed43572717277f3f4", "000000000000000000000000000000000000000000000000000000000000000333349f9726880e8e6740c5f5a0493f9df63bd43b62825a64d506ce11fe04de77"),
    ("0f7832e7551769092b8e072b3d2991e6ca1131990ef8614e45ca946a30ad2c72", "800000000000000000000000000000000000000000000000000000000000000063ac6d3815d51c8457b4caf491d0680d296b66ee26a5fe4ab8e2e0a5f32728d4"),
    ("2a0c5a59d27da5cc66b80a447b7d12602a9f2a9f1041e363d51ba73a60b7a63e", "0000000076657273696f6e0000000000acfab071b271675528b55c662765552c9881999ef72b5b3fd81fe3dcc26898c5baaafb644e62a6b73b14a9f435ec32f2"),
    ("c49d9c78fa6817d9e7f3c4d23562c7a6735b1ebce04566c3623a82dcc230474c", "16030158343c08e26bf13d943678ce8d775cbea180c6cdc0534450abd1c3dbfe17d5c2316692a04451f26b11666df6464142f71d0253e3b9371342d63afbbc93"),
    ("548c354cccc7f1a42487aa66acc5cafe27265d2d7ff205d6d8f2816a8fb3aa87", "474554202f20485454502f312e310d0ae30893446662908bbaf8d30acdbda128bb42d55ad599242350e6cba1b39e12926c18d5a587f5841129087629a9c6b042"),];

pub fn special(n: u64) -> ([u8; 32], [u8; 64]) {
    let (s, k) = SPECIAL[n as usize % SPECIAL.len()];
    (crate::crypto::unhex(s).try_into().unwrap(), crate::crypto::unhex(k).try_into().unwrap())
}

pub fn selftest() -> Result<(), String> {
    let (s, k) = crate::refpeer::ref_key(1, 1);
    for n in 0..SPECIAL.len() {
        let (t, l) = special(n as u64);
        if crate::refpeer::ecdh_x(&k, &l, &s, true) != crate::refpeer::ecdh_x(&k, &l, &t, false) {
            return Err(format!("key {n}"));
        }
    }
    Ok(())
}

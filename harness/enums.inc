// the enumerations with names: made from the headers of the library
E(AeadModes, AeadModeConvert, V(AeadModes, GCM), V(AeadModes, HBA), V(AeadModes, HBAH256), V(AeadModes, HBAH512), V(AeadModes, HBAS256), V(AeadModes, HBAS512))
E(AsymmetricCiphers, AsymmetricCipherConvert, V(AsymmetricCiphers, Kyber), V(AsymmetricCiphers, McEliece), V(AsymmetricCiphers, ECDH))
E(AsymmetricParameters, AsymmetricTransformConvert, V(AsymmetricParameters, DLTMS1P2544), V(AsymmetricParameters, DLTMS3P4016), V(AsymmetricParameters, DLTMS5P4880), V(AsymmetricParameters, ECDHS1P25519K), V(AsymmetricParameters, ECDHS2P25519S), V(AsymmetricParameters, ECDSAS1P25519K), V(AsymmetricParameters, ECDSAS2P25519S), V(AsymmetricParameters, KYBERS1P1632), V(AsymmetricParameters, KYBERS3P2400), V(AsymmetricParameters, KYBERS5P3168), V(AsymmetricParameters, KYBERS6P3936), V(AsymmetricParameters, MPKCS3N4608T96), V(AsymmetricParameters, MPKCS3N6960T119), V(AsymmetricParameters, MPKCS4N6688T128), V(AsymmetricParameters, MPKCS5N8192T128), V(AsymmetricParameters, SPXPS1S128SHAKE), V(AsymmetricParameters, SPXPS3S192SHAKE), V(AsymmetricParameters, SPXPS5S256SHAKE), V(AsymmetricParameters, SPXPS6S512SHAKE), V(AsymmetricParameters, XMSSSHA2256H10), V(AsymmetricParameters, XMSSSHA2256H16), V(AsymmetricParameters, XMSSSHA2256H20), V(AsymmetricParameters, XMSSSHA2512H10), V(AsymmetricParameters, XMSSSHA2512H16), V(AsymmetricParameters, XMSSSHA2512H20), V(AsymmetricParameters, XMSSSHAKE256H10), V(AsymmetricParameters, XMSSSHAKE256H16), V(AsymmetricParameters, XMSSSHAKE256H20), V(AsymmetricParameters, XMSSSHAKE512H10), V(AsymmetricParameters, XMSSSHAKE512H16), V(AsymmetricParameters, XMSSSHAKE512H20), V(AsymmetricParameters, XMSSMTSHA2256H20D2), V(AsymmetricParameters, XMSSMTSHA2256H20D4), V(AsymmetricParameters, XMSSMTSHA2256H40D2), V(AsymmetricParameters, XMSSMTSHA2256H40D4), V(AsymmetricParameters, XMSSMTSHA2256H40D8), V(AsymmetricParameters, XMSSMTSHA2256H60D3), V(AsymmetricParameters, XMSSMTSHA2256H60D6), V(AsymmetricParameters, XMSSMTSHA2256H60D12), V(AsymmetricParameters, XMSSMTSHA2512H20D2), V(AsymmetricParameters, XMSSMTSHA2512H20D4), V(AsymmetricParameters, XMSSMTSHA2512H40D2), V(AsymmetricParameters, XMSSMTSHA2512H40D4), V(AsymmetricParameters, XMSSMTSHA2512H40D8), V(AsymmetricParameters, XMSSMTSHA2512H60D3), V(AsymmetricParameters, XMSSMTSHA2512H60D6), V(AsymmetricParameters, XMSSMTSHA2512H60D12), V(AsymmetricParameters, XMSSMTSHAKE256H20D2), V(AsymmetricParameters, XMSSMTSHAKE256H20D4), V(AsymmetricParameters, XMSSMTSHAKE256H40D2), V(AsymmetricParameters, XMSSMTSHAKE256H40D4), V(AsymmetricParameters, XMSSMTSHAKE256H40D8), V(AsymmetricParameters, XMSSMTSHAKE256H60D3), V(AsymmetricParameters, XMSSMTSHAKE256H60D6), V(AsymmetricParameters, XMSSMTSHAKE256H60D12), V(AsymmetricParameters, XMSSMTSHAKE512H20D2), V(AsymmetricParameters, XMSSMTSHAKE512H20D4), V(AsymmetricParameters, XMSSMTSHAKE512H40D2), V(AsymmetricParameters, XMSSMTSHAKE512H40D4), V(AsymmetricParameters, XMSSMTSHAKE512H40D8), V(AsymmetricParameters, XMSSMTSHAKE512H60D3), V(AsymmetricParameters, XMSSMTSHAKE512H60D6), V(AsymmetricParameters, XMSSMTSHAKE512H60D12))
E(AsymmetricPrimitives, AsymmetricPrimitiveConvert, V(AsymmetricPrimitives, ECDH), V(AsymmetricPrimitives, Kyber), V(AsymmetricPrimitives, McEliece), V(AsymmetricPrimitives, Dilithium), V(AsymmetricPrimitives, ECDSA), V(AsymmetricPrimitives, SphincsPlus), V(AsymmetricPrimitives, XMSS), V(AsymmetricPrimitives, XMSSMT))
E(AsymmetricSigners, AsymmetricSignerConvert, V(AsymmetricSigners, Dilithium), V(AsymmetricSigners, ECDSA), V(AsymmetricSigners, SphincsPlus), V(AsymmetricSigners, XMSS), V(AsymmetricSigners, XMSSMT))
E(BlockCiphers, BlockCipherConvert, V(BlockCiphers, AES), V(BlockCiphers, Serpent), V(BlockCiphers, RHXH256), V(BlockCiphers, RHXH512), V(BlockCiphers, RHXS256), V(BlockCiphers, RHXS512), V(BlockCiphers, SHXH256), V(BlockCiphers, SHXH512), V(BlockCiphers, SHXS256), V(BlockCiphers, SHXS512))
E(CipherModes, CipherModeConvert, V(CipherModes, ACM), V(CipherModes, CBC), V(CipherModes, CFB), V(CipherModes, CTR), V(CipherModes, ECB), V(CipherModes, GCM), V(CipherModes, HBA), V(CipherModes, HBAH256), V(CipherModes, HBAH512), V(CipherModes, HBAS256), V(CipherModes, HBAS512), V(CipherModes, ICM), V(CipherModes, OFB))
E(Digests, DigestConvert, V(Digests, Blake256), V(Digests, Blake512), V(Digests, SHA3256), V(Digests, SHA3512), V(Digests, SHA2256), V(Digests, SHA2512), V(Digests, SHAKE128), V(Digests, SHAKE256), V(Digests, SHAKE512), V(Digests, Skein256), V(Digests, Skein512), V(Digests, Skein1024))
E(DilithiumParameters, DilithiumParameterConvert, V(DilithiumParameters, DLTMS1P2544), V(DilithiumParameters, DLTMS3P4016), V(DilithiumParameters, DLTMS5P4880))
E(Drbgs, DrbgConvert, V(Drbgs, BCG), V(Drbgs, CSG), V(Drbgs, HCG))
E(ECDHParameters, ECDHParameterConvert, V(ECDHParameters, ECDHS1P25519K), V(ECDHParameters, ECDHS2P25519S))
E(ECDSAParameters, ECDSAParameterConvert, V(ECDSAParameters, ECDSAS1P25519K), V(ECDSAParameters, ECDSAS2P25519S))
E(ExceptionTypes, ExceptionTypeConvert, V(ExceptionTypes, CryptoAsymmetricException), V(ExceptionTypes, CryptoAuthenticationFailure), V(ExceptionTypes, CryptoCipherModeException), V(ExceptionTypes, CryptoDigestException), V(ExceptionTypes, CryptoException), V(ExceptionTypes, CryptoGeneratorException), V(ExceptionTypes, CryptoKdfException), V(ExceptionTypes, CryptoKmsException), V(ExceptionTypes, CryptoMacException), V(ExceptionTypes, CryptoPaddingException), V(ExceptionTypes, CryptoProcessingException), V(ExceptionTypes, CryptoRandomException), V(ExceptionTypes, CryptoSymmetricException))
E(Kdfs, KdfConvert, V(Kdfs, HKDS512), V(Kdfs, HKDF256), V(Kdfs, HKDF512), V(Kdfs, KDF2256), V(Kdfs, KDF2512), V(Kdfs, PBKDF2256), V(Kdfs, PBKDF2512), V(Kdfs, SHAKE128), V(Kdfs, SHAKE256), V(Kdfs, SHAKE512), V(Kdfs, SCBKDF128), V(Kdfs, SCBKDF256), V(Kdfs, SCBKDF512), V(Kdfs, SCBKDF1024), V(Kdfs, HKDS128), V(Kdfs, HKDS256))
E(KmacModes, KmacModeConvert, V(KmacModes, KMAC128), V(KmacModes, KMAC256), V(KmacModes, KMAC512))
E(Kms, KmsConvert, V(Kms, HKDS128), V(Kms, HKDS256), V(Kms, HKDS512))
E(KpaModes, KbaModeConvert, V(KpaModes, KPA128), V(KpaModes, KPA256), V(KpaModes, KPA512))
E(KyberParameters, KyberParameterConvert, V(KyberParameters, KYBERS1P1632), V(KyberParameters, KYBERS3P2400), V(KyberParameters, KYBERS5P3168), V(KyberParameters, KYBERS6P3936))
E(Macs, MacConvert, V(Macs, CMAC), V(Macs, CMACRHXH256), V(Macs, CMACRHXH512), V(Macs, CMACRHXS256), V(Macs, CMACRHXS512), V(Macs, GMAC), V(Macs, GMACRHXH256), V(Macs, GMACRHXH512), V(Macs, GMACRHXS256), V(Macs, GMACRHXS512), V(Macs, HMACSHA2256), V(Macs, HMACSHA2512), V(Macs, KPA128), V(Macs, KPA256), V(Macs, KPA512), V(Macs, KMAC128), V(Macs, KMAC256), V(Macs, KMAC512), V(Macs, Poly1305))
E(McElieceParameters, McElieceParameterConvert, V(McElieceParameters, MPKCS3N4608T96), V(McElieceParameters, MPKCS3N6960T119), V(McElieceParameters, MPKCS4N6688T128), V(McElieceParameters, MPKCS5N8192T128))
E(PaddingModes, PaddingModeConvert, V(PaddingModes, ESP), V(PaddingModes, PKCS7), V(PaddingModes, X923), V(PaddingModes, ZeroOne))
E(Prngs, PrngConvert, V(Prngs, BCR), V(Prngs, CSR), V(Prngs, CSRC512), V(Prngs, CSRC1024), V(Prngs, HCR), V(Prngs, HCRS512))
E(Providers, ProviderConvert, V(Providers, ACP), V(Providers, CJP), V(Providers, CSP), V(Providers, ECP), V(Providers, RDP))
E(SHA2Digests, SHA2DigestConvert, V(SHA2Digests, SHA2256), V(SHA2Digests, SHA2512))
E(SecurityPolicy, SecurityPolicyConvert, V(SecurityPolicy, SPL256), V(SecurityPolicy, SPL256AE), V(SecurityPolicy, SPL512), V(SecurityPolicy, SPL512AE), V(SecurityPolicy, SPL1024), V(SecurityPolicy, SPL1024AE))
E(ShakeModes, ShakeModeConvert, V(ShakeModes, SHAKE128), V(ShakeModes, SHAKE256), V(ShakeModes, SHAKE512))
E(SphincsPlusParameters, SphincsPlusParameterConvert, V(SphincsPlusParameters, SPXPS1S128SHAKE), V(SphincsPlusParameters, SPXPS3S192SHAKE), V(SphincsPlusParameters, SPXPS5S256SHAKE), V(SphincsPlusParameters, SPXPS6S512SHAKE))
E(StreamAuthenticators, StreamAuthenticatorConvert, V(StreamAuthenticators, KPA), V(StreamAuthenticators, KMAC), V(StreamAuthenticators, HMACSHA2256), V(StreamAuthenticators, HMACSHA2512), V(StreamAuthenticators, KMAC256), V(StreamAuthenticators, KMAC512), V(StreamAuthenticators, Poly1305))
E(StreamCiphers, StreamCipherConvert, V(StreamCiphers, ChaChaP20), V(StreamCiphers, CSXR20K256), V(StreamCiphers, CSX512), V(StreamCiphers, CSXR80K512), V(StreamCiphers, RCS), V(StreamCiphers, RCSK256), V(StreamCiphers, RCSK512), V(StreamCiphers, RCSK1024), V(StreamCiphers, RWS), V(StreamCiphers, RWSK256), V(StreamCiphers, RWSK512), V(StreamCiphers, RWSK1024), V(StreamCiphers, TSX256), V(StreamCiphers, TSXR72K256), V(StreamCiphers, TSX512), V(StreamCiphers, TSXR96K512), V(StreamCiphers, TSX1024), V(StreamCiphers, TSXR120K512))
E(SymmetricCiphers, SymmetricCipherConvert, V(SymmetricCiphers, AES), V(SymmetricCiphers, Serpent), V(SymmetricCiphers, RHXH256), V(SymmetricCiphers, RHXH512), V(SymmetricCiphers, RHXS256), V(SymmetricCiphers, RHXS512), V(SymmetricCiphers, SHXH256), V(SymmetricCiphers, SHXH512), V(SymmetricCiphers, SHXS256), V(SymmetricCiphers, SHXS512), V(SymmetricCiphers, ChaChaP20), V(SymmetricCiphers, CSXR20K256), V(SymmetricCiphers, CSX512), V(SymmetricCiphers, CSXR80K512), V(SymmetricCiphers, RCS), V(SymmetricCiphers, RCSK256), V(SymmetricCiphers, RCSK512), V(SymmetricCiphers, RCSK1024), V(SymmetricCiphers, RWS), V(SymmetricCiphers, RWSK256), V(SymmetricCiphers, RWSK512), V(SymmetricCiphers, RWSK1024), V(SymmetricCiphers, TSX256), V(SymmetricCiphers, TSXR72K256), V(SymmetricCiphers, TSX512), V(SymmetricCiphers, TSXR96K512), V(SymmetricCiphers, TSX1024), V(SymmetricCiphers, TSXR120K512))
E(ThreefishModes, ThreefishModeConvert, V(ThreefishModes, TSX256), V(ThreefishModes, TSXR72K256), V(ThreefishModes, TSX512), V(ThreefishModes, TSXR96K512), V(ThreefishModes, TSX1024), V(ThreefishModes, TSXR120K512))
E(XmssParameters, XmssParameterConvert, V(XmssParameters, XMSSSHA2256H10), V(XmssParameters, XMSSSHA2256H16), V(XmssParameters, XMSSSHA2256H20), V(XmssParameters, XMSSSHA2512H10), V(XmssParameters, XMSSSHA2512H16), V(XmssParameters, XMSSSHA2512H20), V(XmssParameters, XMSSSHAKE256H10), V(XmssParameters, XMSSSHAKE256H16), V(XmssParameters, XMSSSHAKE256H20), V(XmssParameters, XMSSSHAKE512H10), V(XmssParameters, XMSSSHAKE512H16), V(XmssParameters, XMSSSHAKE512H20), V(XmssParameters, XMSSMTSHA2256H20D2), V(XmssParameters, XMSSMTSHA2256H20D4), V(XmssParameters, XMSSMTSHA2256H40D2), V(XmssParameters, XMSSMTSHA2256H40D4), V(XmssParameters, XMSSMTSHA2256H40D8), V(XmssParameters, XMSSMTSHA2256H60D3), V(XmssParameters, XMSSMTSHA2256H60D6), V(XmssParameters, XMSSMTSHA2256H60D12), V(XmssParameters, XMSSMTSHA2512H20D2), V(XmssParameters, XMSSMTSHA2512H20D4), V(XmssParameters, XMSSMTSHA2512H40D2), V(XmssParameters, XMSSMTSHA2512H40D4), V(XmssParameters, XMSSMTSHA2512H40D8), V(XmssParameters, XMSSMTSHA2512H60D3), V(XmssParameters, XMSSMTSHA2512H60D6), V(XmssParameters, XMSSMTSHA2512H60D12), V(XmssParameters, XMSSMTSHAKE256H20D2), V(XmssParameters, XMSSMTSHAKE256H20D4), V(XmssParameters, XMSSMTSHAKE256H40D2), V(XmssParameters, XMSSMTSHAKE256H40D4), V(XmssParameters, XMSSMTSHAKE256H40D8), V(XmssParameters, XMSSMTSHAKE256H60D3), V(XmssParameters, XMSSMTSHAKE256H60D6), V(XmssParameters, XMSSMTSHAKE256H60D12), V(XmssParameters, XMSSMTSHAKE512H20D2), V(XmssParameters, XMSSMTSHAKE512H20D4), V(XmssParameters, XMSSMTSHAKE512H40D2), V(XmssParameters, XMSSMTSHAKE512H40D4), V(XmssParameters, XMSSMTSHAKE512H40D8), V(XmssParameters, XMSSMTSHAKE512H60D3), V(XmssParameters, XMSSMTSHAKE512H60D6), V(XmssParameters, XMSSMTSHAKE512H60D12))

------------------------------ MODULE DigestBig ------------------------------
(* Digests of messages too long to evaluate in TLC: byte i of the message is   
   ((i mod 2^20) * 131 + ((i mod 2^20) div 256) * 7 + 3) mod 256; lengths around 2^29 (bit length
   2^32) and beyond 2^32 bytes.  Values from an independent implementation (OpenSSL). *)
EXTENDS TLC
BigDigest ==
(<<"md5", "536870911">> :> "2906f9e553ef03b4e13fff83754769f4")
  @@ (<<"md5", "536870913">> :> "4f2c12940ebc6ccb4bd13a2713ad8459")
  @@ (<<"md5", "4294967301">> :> "71ed07f81cbc9295d3e962abffa6502b")
  @@ (<<"sha1", "536870911">> :> "81765f80f4cb6bd44d7dcb3bc50e57d47726643e")
  @@ (<<"sha1", "536870913">> :> "0fe75a2fef4526fce6a02fe8e22a339bed19ee2a")
  @@ (<<"sha1", "4294967301">> :> "7109c7c0a3123cdfae8052f576eef25b4c2c15c1")
  @@ (<<"sha224", "536870911">> :> "6fd5f4273475851d5d82362111a98e555b610e6077f933d81d5d06a5")
  @@ (<<"sha224", "536870913">> :> "9d76735ec50210617d6ca68f4091b1a8dcaab9cc469712b027cc6008")
  @@ (<<"sha224", "4294967301">> :> "2cb193bf35c206f7b40b841127baf3989fca845d8f39d309fe139de2")
  @@ (<<"sha256", "536870911">> :> "5d518c00dd54d824be1d2a4030dd89450cf894788ba0b9481488b182b3ed3270")
  @@ (<<"sha256", "536870913">> :> "45b2e65618e99b4b66c4dd7f805492809eb101067c601dc66d9e500f52ffd599")
  @@ (<<"sha256", "4294967301">> :> "0f1658608952ceda6303552cc0f4019b750705248152e1fba8c8c399459a5e12")
  @@ (<<"sha384", "536870911">> :> "2ed9c39c29d01d0354e7c928a91f4302f80e3f4e825c00bf43d522c38c775abbe8ddc811f6c6bb723dbcc448a3f2f64f")
  @@ (<<"sha384", "536870913">> :> "b06248f2ce1d2e0153ce8bb363c7e29853fb85fd53a53b80d58d76a0a435903303d0712c4e5ccc7d9f662ceac7771584")
  @@ (<<"sha384", "4294967301">> :> "ce334ed747b5944069bc73604fa629c7dff460318250ea4cfc15ca763fd54c1a5214189c527909a2c360507180ed068c")
  @@ (<<"sha512", "536870911">> :> "9b89b644d9bb781acb9dea9a766159cd62a6b166efcba8e47971c45bd823b06a96421325d04bd6ad676b8e7ee4b97ab7aa2461b282a0cd7f8514c299a1105659")
  @@ (<<"sha512", "536870913">> :> "6db4baaed04e3a3895d9981799b1d1a3820e2e0dc320a68719ba45e4299c34c6ad83e27044e73aa50c834ce27da9748663babd24e90708cb6141dd09055c070e")
  @@ (<<"sha512", "4294967301">> :> "8d0b688ea7f6fc4aeacb52a743ee4518e2c397e73f59c6ef46595ad92831c26fb705303e15310fb25051f8a7d2ed4008e46a59f8bef827e022d6d1460d1cbf1f")
  @@ (<<"sha512_224", "536870911">> :> "67fc877f0ec4fecbc2649462f99914a6f8019c230f8132e0cb9f5317")
  @@ (<<"sha512_224", "536870913">> :> "b3fa26670cab4452a207003a1ccee377d4265726e818f206ed27cf09")
  @@ (<<"sha512_224", "4294967301">> :> "1a8099623c1d44c6a57d70781877eb0ed99ea9df8d3860330a35930b")
  @@ (<<"sha512_256", "536870911">> :> "0e41807f67dd024197bede3e9e5791f477da9f6aea9bf2cb90cd210980de11b5")
  @@ (<<"sha512_256", "536870913">> :> "88e3ee6fbe8c75ec9c664e9752fa55be6db1f642a085d4ec9076f3b7ac98d4a7")
  @@ (<<"sha512_256", "4294967301">> :> "4061e38cdd237b39deabb4e2075b1ca24d35c6bf2a87fee8524a672b6a6b26c1")
  @@ (<<"blake2b", "536870911">> :> "fefe0466e291de936c021c8d7a4962305c40d83b39a63fa47a28ab25a7714e6dcf999d955fb099b7b7956ee58f6e0eaa7005e1d11fb38eff5c65d5ac909e04a3")
  @@ (<<"blake2b", "536870913">> :> "bcf30321ec9eaa3d499574ce3159bbb3a987583f0400a4da81c57a3e728464b40996ac2b3e62500f67e83881c95790a7b97b5c7ca1f1f69f9a37390c134299e0")
  @@ (<<"blake2b", "4294967301">> :> "6fbbcfcb4849a6b38aa03f44f85cc2f28cf3e92563d67b222a365720c0416cbd8d1d5888a1ec1c7329f07a81d7855a3bcdd2eaf9e99e69bbb68688b784b0b3f2")
  @@ (<<"blake3", "4294967301">> :> "ddf2b325b89a01f7485dd5592647d3d8d1070ff303dcaaf69454ab2abfdbb418")
  @@ (<<"blake3", "536870913">> :> "e7d4cd119aae697d4be2632d40e782a02c88fd4b9124987ce4fbae8c80542ba3")
  @@ (<<"sha3_256", "536870911">> :> "7592db943ddd3a6b1adbd074fc46f4ddc24ef1f7e9a26134a26d0fa1060916f2")
  @@ (<<"sha3_256", "536870913">> :> "300129d5e87c88e0959bf22be5d764af226511c10874debe642fc248174fd2b9")
  @@ (<<"sha3_256", "4294967301">> :> "68bc324d9265c73d4d3483b300cb9a1bceb55855968fe24e8e91a2b71e37bc56")
=============================================================================

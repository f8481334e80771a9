From ef2d014140218f521e47fe914e4bda4cfc8a61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:37 +0000
Subject: [PATCH 01/27] fix: bind the enc-relation challenge to the statement
 and all prover messages

---
 zkp/nizk/nizk_enc_relation.hpp | 48 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index ffa08f2..a3106d7 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -126,22 +126,6 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     }
     proof.D = Pedersen::Commit(pp.com_part, vec_d, rD);
 
-    transcript_str += proof.B.ToByteString(); 
-    transcript_str += proof.A.ToByteString();
-    transcript_str += proof.C.ToByteString();
-    transcript_str += proof.D.ToByteString(); 
-
-    // compute the challenge
-    BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
-
-    // compute the response     
-    proof.vec_f.resize(pp.m * pp.n); 
-    for(auto i = 0; i < pp.m * pp.n; i++){
-        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
-    }
-    proof.zA = (rB * x + rA) % order; 
-    proof.zC = (rC * x + rD) % order; 
-
     std::vector<BigInt> vec_rho = GenRandomBigIntVectorLessThan(pp.m, order);
 
     proof.vec_G.resize(pp.m);
@@ -177,6 +161,30 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
         proof.vec_G[k] = TwistedExponentialElGamal::HomoAdd(proof.vec_G[k], vec_mask_CT[k]);
     }
 
+    // initialize the transcript with instance
+    transcript_str += instance.ek.ToByteString(); 
+    for(auto i = 0; i < N; i++){
+        transcript_str += instance.vec_CT[i].X.ToByteString() + instance.vec_CT[i].Y.ToByteString(); 
+    }
+    transcript_str += proof.B.ToByteString(); 
+    transcript_str += proof.A.ToByteString();
+    transcript_str += proof.C.ToByteString();
+    transcript_str += proof.D.ToByteString(); 
+    for(auto k = 0; k < pp.m; k++){
+        transcript_str += proof.vec_G[k].X.ToByteString() + proof.vec_G[k].Y.ToByteString(); 
+    }
+
+    // compute the challenge
+    BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
+
+    // compute the response     
+    proof.vec_f.resize(pp.m * pp.n); 
+    for(auto i = 0; i < pp.m * pp.n; i++){
+        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
+    }
+    proof.zA = (rB * x + rA) % order; 
+    proof.zC = (rC * x + rD) % order; 
+
     std::vector<BigInt> exp_x(pp.m+1);
     exp_x[0] = bn_1;  
     for(auto k = 1; k <= pp.m; k++){
@@ -199,10 +207,18 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
     size_t N = instance.vec_CT.size();
     pp.m = log(N)/log(pp.n);
     
+    // initialize the transcript with instance
+    transcript_str += instance.ek.ToByteString(); 
+    for(auto i = 0; i < N; i++){
+        transcript_str += instance.vec_CT[i].X.ToByteString() + instance.vec_CT[i].Y.ToByteString(); 
+    }
     transcript_str += proof.B.ToByteString(); 
     transcript_str += proof.A.ToByteString();
     transcript_str += proof.C.ToByteString();
     transcript_str += proof.D.ToByteString(); 
+    for(auto k = 0; k < pp.m; k++){
+        transcript_str += proof.vec_G[k].X.ToByteString() + proof.vec_G[k].Y.ToByteString(); 
+    }
 
     // compute the challenge
     BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
-- 
2.43.0


From 6794ef481d4de763530a8ade1d8d3acfe08797ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:37 +0000
Subject: [PATCH 02/27] fix: bind the range-proof challenges to the commitments
 and opened scalars

---
 zkp/bulletproofs/bullet_proof.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/zkp/bulletproofs/bullet_proof.hpp b/zkp/bulletproofs/bullet_proof.hpp
index f87091e..1690692 100755
--- a/zkp/bulletproofs/bullet_proof.hpp
+++ b/zkp/bulletproofs/bullet_proof.hpp
@@ -193,6 +193,11 @@ void Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcript
 
     proof.S = ECPointVectorMul(vec_A, vec_a); // Eq (47) 
 
+    // initialize the transcript with instance
+    for (auto i = 0; i < instance.C.size(); i++){
+        transcript_str += instance.C[i].ToByteString(); 
+    }
+
     // Eq (49, 50) compute y and z
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);
@@ -301,7 +306,7 @@ void Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcript
     std::copy(pp.vec_h.begin(), pp.vec_h.begin()+LEN, ip_pp.vec_h.begin()); 
     ip_pp.vec_h = ECPointVectorProduct(ip_pp.vec_h, vec_y_inverse_power);  // ip_pp.vec_h = vec_h_new  
 
-    transcript_str += x.ToByteString();  
+    transcript_str += x.ToByteString() + proof.tx.ToByteString() + proof.taux.ToByteString() + proof.mu.ToByteString();  
     BigInt e = Hash::StringToBigInt(transcript_str);   
 
     InnerProduct::Witness ip_witness;
@@ -338,6 +343,11 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
 
     bool V1, V2, Validity; // variables for checking results
 
+    // initialize the transcript with instance
+    for (auto i = 0; i < instance.C.size(); i++){
+        transcript_str += instance.C[i].ToByteString(); 
+    }
+
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);  //recover the challenge y
     BigInt y_inverse = y.ModInverse(order);  
@@ -353,7 +363,7 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
     BigInt x = Hash::StringToBigInt(transcript_str); 
     BigInt x_square = x.ModSquare(order);  // (x*x)%q;  //recover the challenge x from PI
 
-    transcript_str += x.ToByteString(); 
+    transcript_str += x.ToByteString() + proof.tx.ToByteString() + proof.taux.ToByteString() + proof.mu.ToByteString(); 
     BigInt e = Hash::StringToBigInt(transcript_str);  // play the role of x_u
 
     size_t n = instance.C.size();
@@ -492,6 +502,11 @@ bool FastVerify(const PP &pp, Instance &instance, std::string &transcript_str, P
         std::cout << "begin to check the proof" << std::endl; 
     #endif
 
+    // initialize the transcript with instance
+    for (auto i = 0; i < instance.C.size(); i++){
+        transcript_str += instance.C[i].ToByteString(); 
+    }
+
     // prepare Eq (97)
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);  //recover the challenge y
@@ -508,7 +523,7 @@ bool FastVerify(const PP &pp, Instance &instance, std::string &transcript_str, P
     BigInt x = Hash::StringToBigInt(transcript_str); 
     BigInt x_square = x.ModSquare(order);  // (x*x)%q;  //recover the challenge x from PI
 
-    transcript_str += x.ToByteString(); 
+    transcript_str += x.ToByteString() + proof.tx.ToByteString() + proof.taux.ToByteString() + proof.mu.ToByteString(); 
     BigInt e = Hash::StringToBigInt(transcript_str);  // play the role of x_u
 
     size_t n = instance.C.size();
-- 
2.43.0


From e9bd3a61bfcf49f3bacc0d199754e8d9a217c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:37 +0000
Subject: [PATCH 03/27] fix: bind the accountable ring signature challenge to
 ring and ciphertexts

---
 signature/accountable_ring_sig.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/signature/accountable_ring_sig.hpp b/signature/accountable_ring_sig.hpp
index 4149cec..b2a6d14 100644
--- a/signature/accountable_ring_sig.hpp
+++ b/signature/accountable_ring_sig.hpp
@@ -104,7 +104,13 @@ Signature Sign(PP &pp, BigInt &sk, std::vector<ECPoint> &vec_R, std::string &mes
     nizk_witness.r = r; 
     nizk_witness.l = l;
 
-    std::string transcript_str = message; 
+    std::string transcript_str = message;
+    // bind the challenge to the ring and both ciphertexts
+    for(auto i = 0; i < N; i++){
+        transcript_str += vec_R[i].ToByteString(); 
+    }
+    transcript_str += sigma.ct_vk.X.ToByteString() + sigma.ct_vk.Y.ToByteString(); 
+    transcript_str += sigma.ct_s.X.ToByteString() + sigma.ct_s.Y.ToByteString(); 
 
     sigma.correct_encryption_proof = EncRelation::Prove(nizk_pp, nizk_instance, nizk_witness, transcript_str); 
 
@@ -137,7 +143,13 @@ bool Verify(PP &pp, std::vector<ECPoint> &vec_R, std::string &message, Signature
     
     std::vector<bool> vec_condition(2, true); 
 
-    std::string transcript_str = message;     
+    std::string transcript_str = message;
+    // bind the challenge to the ring and both ciphertexts
+    for(auto i = 0; i < N; i++){
+        transcript_str += vec_R[i].ToByteString(); 
+    }
+    transcript_str += sigma.ct_vk.X.ToByteString() + sigma.ct_vk.Y.ToByteString(); 
+    transcript_str += sigma.ct_s.X.ToByteString() + sigma.ct_s.Y.ToByteString(); 
     vec_condition[0] = EncRelation::Verify(nizk_pp, nizk_instance, transcript_str, sigma.correct_encryption_proof); 
 
     BigInt x = Hash::StringToBigInt(transcript_str);
-- 
2.43.0


From 3f462602354254ab2c84a93e247bb7f12d1abbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:02 +0000
Subject: [PATCH 04/27] fix: round the digit count of the enc-relation proof
 instead of truncating it

---
 zkp/nizk/nizk_enc_relation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index a3106d7..b553866 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -60,7 +60,7 @@ PP Setup(Pedersen::PP &com_pp, TwistedExponentialElGamal::PP &enc_pp, size_t n)
     pp.com_part = com_pp;
     pp.enc_part = enc_pp; 
     pp.n = n;
-    pp.m = log(pp.com_part.N_max)/log(pp.n); // the default value 
+    pp.m = round(log(pp.com_part.N_max)/log(pp.n)); // the default value 
 
     return pp; 
 }
@@ -80,7 +80,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 {    
     Proof proof;
     size_t N = instance.vec_CT.size();
-    pp.m = log(N)/log(pp.n);
+    pp.m = round(log(N)/log(pp.n));
 
     std::vector<size_t> vec_index_star = Decompose(witness.l, pp.n, pp.m);     
     
@@ -205,7 +205,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proof)
 {    
     size_t N = instance.vec_CT.size();
-    pp.m = log(N)/log(pp.n);
+    pp.m = round(log(N)/log(pp.n));
     
     // initialize the transcript with instance
     transcript_str += instance.ek.ToByteString(); 
-- 
2.43.0


From 54d235edc63ab117454baf21a912da36f5222f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:04 +0000
Subject: [PATCH 05/27] fix: BigInt::ModNegate returns 0, not the modulus, for
 nonzero multiples of the modulus

---
 crypto/bigint.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index 1a49aa1..f365452 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -473,10 +473,7 @@ BigInt BigInt::ModSquareRoot(const BigInt& modulus) const {
 // Computes -a mod m.
 // Causes a check failure if the operation fails.
 BigInt BigInt::ModNegate(const BigInt& modulus) const {
-    if (IsZero()) {
-        return *this;
-    }
-    return modulus - Mod(modulus);
+    return Negate().Mod(modulus);
 }
 
 // Returns a BigInt whose value is (*this >> n).
-- 
2.43.0


From accefb4153f61c5f45870f21f53664d5e4a4ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:04 +0000
Subject: [PATCH 06/27] fix: fixed-length BigInt::ToByteString honours its
 length argument

---
 crypto/bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index f365452..938020f 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -283,7 +283,7 @@ void BigInt::FromByteString(const unsigned char* buffer, size_t LEN)
 // an ad-hoc implementation for fixed length conversion: default LEN = BN_BYTE_LEN
 void BigInt::ToByteString(unsigned char* buffer, size_t LEN) const
 {
-    BN_bn2bin(this->bn_ptr, buffer);
+    BN_bn2binpad(this->bn_ptr, buffer, LEN);
 }  
 
 std::string BigInt::ToByteString() const
-- 
2.43.0


From 6c1c5653135f08b48b40ac53dbd1ed20ea4363db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:31 +0000
Subject: [PATCH 07/27] fix: PlaintextEquality::ProofToByteString includes B, z
 and t

---
 zkp/nizk/nizk_plaintext_equality.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkp/nizk/nizk_plaintext_equality.hpp b/zkp/nizk/nizk_plaintext_equality.hpp
index 90921cb..ac74b66 100755
--- a/zkp/nizk/nizk_plaintext_equality.hpp
+++ b/zkp/nizk/nizk_plaintext_equality.hpp
@@ -105,9 +105,9 @@ std::string ProofToByteString(Proof &proof)
     for(auto i = 0; i < proof.vec_A.size(); i++){
         str += proof.vec_A[i].ToByteString();
     }
-    proof.B.ToByteString(); 
-    proof.z.ToByteString(); 
-    proof.t.ToByteString(); 
+    str += proof.B.ToByteString(); 
+    str += proof.z.ToByteString(); 
+    str += proof.t.ToByteString(); 
     return str; 
 } 
 
-- 
2.43.0


From bef6aeebe2105735e38848c5a87d9c716dbcf40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:31 +0000
Subject: [PATCH 08/27] fix: the saved 1-to-n transaction includes its balance
 proof

---
 adcp/adcp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 8f8073c..996236d 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -995,6 +995,7 @@ void SaveCTx(ToManyCTx &newCTx, std::string ADCP_CTx_File)
     fout << newCTx.correct_refresh_proof; 
     fout << newCTx.bullet_right_solvent_proof; 
     fout << newCTx.plaintext_knowledge_proof; 
+    fout << newCTx.balance_proof; 
 
     fout.close();
 
-- 
2.43.0


From e0155cb786f91a215f5ec1688fa293e62caf8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:04 +0000
Subject: [PATCH 09/27] fix: CuckooFilter::WriteObject(char*) stores
 victim.used where ReadObject reads it

---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index 087ade8..9b7a7cc 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -444,7 +444,7 @@ public:
 
         memcpy(buffer+48, &victim.bucket_index, 4);
         memcpy(buffer+52, &victim.tag, 4);
-        memcpy(buffer+66, &victim.used, 4);
+        memcpy(buffer+56, &victim.used, 4);
       
         memcpy(buffer+60, bucket_table.data(), bucket_table.size()); 
 
-- 
2.43.0


From a42316105dc8e25b17b007cd5b685cd35515729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:04 +0000
Subject: [PATCH 10/27] fix: CuckooFilter::ReadObject(file) restores the bucket
 table

---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index 9b7a7cc..de4f8a0 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -423,7 +423,7 @@ public:
         fin >> victim.used;
 
         bucket_table.resize(bucket_byte_size * bucket_num, static_cast<uint8_t>(0x00));
-        fin >> bucket_table.data(); 
+        fin >> bucket_table; 
       
         return true;
    } 
-- 
2.43.0


From 6f78c66c9c98ec10047195764e5cb219ab7bebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:32 +0000
Subject: [PATCH 11/27] fix: Miner only accepts transactions made for the
 sender's current balance and serial number

---
 adcp/adcp.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 996236d..72ab551 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -628,6 +628,11 @@ bool Miner(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct_receive
         return false; 
     }
 
+    if (newCTx.sn != Acct_sender.sn || !(newCTx.sender_balance_ct == Acct_sender.balance_ct)){
+        std::cout << "CTx does not match the current state of the sender account" << std::endl; 
+        return false; 
+    }
+
     std::string ctx_file = GetCTxFileName(newCTx); 
     if(VerifyCTx(pp, newCTx) == true){
         UpdateAccount(pp, newCTx, Acct_sender, Acct_receiver);
@@ -1431,6 +1436,11 @@ bool Miner(PP &pp, ToManyCTx &newCTx, Account &Acct_sender, std::vector<Account>
         } 
     }
 
+    if (newCTx.sn != Acct_sender.sn || !(newCTx.sender_balance_ct == Acct_sender.balance_ct)){
+        std::cout << "CTx does not match the current state of the sender account" << std::endl; 
+        return false; 
+    }
+
     std::string ctx_file = GetCTxFileName(newCTx); 
     if(VerifyCTx(pp, newCTx) == true){
         UpdateAccount(pp, newCTx, Acct_sender, vec_Acct_receiver);
-- 
2.43.0


From 3a3b085c13582fa93c47a31985d0f327a4e5dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:32 +0000
Subject: [PATCH 12/27] fix: a 1-to-1 transaction advances the sender's serial
 number

---
 adcp/adcp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 72ab551..804e58d 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -335,6 +335,8 @@ bool UpdateAccount(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct
     TwistedExponentialElGamal::CT c_in; 
     c_in.X = newCTx.transfer_ct.vec_X[1]; c_in.Y = newCTx.transfer_ct.Y;
 
+    Acct_sender.sn = Acct_sender.sn + bn_1;
+
     // update sender's balance
     Acct_sender.balance_ct = TwistedExponentialElGamal::HomoSub(Acct_sender.balance_ct, c_out); 
     Acct_sender.m = TwistedExponentialElGamal::Dec(pp.enc_part, Acct_sender.sk, Acct_sender.balance_ct); 
-- 
2.43.0


From a12d4815bf19debf3ab95c9a0b795398b9d7477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:32 +0000
Subject: [PATCH 13/27] fix: Miner rejects a 1-to-n transaction whose receivers
 are not all present

---
 adcp/adcp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 804e58d..82554f1 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -1431,6 +1431,10 @@ bool Miner(PP &pp, ToManyCTx &newCTx, Account &Acct_sender, std::vector<Account>
         std::cout << "sender does not match CTx" << std::endl; 
         return false; 
     }
+    if (newCTx.vec_pkr.size() != vec_Acct_receiver.size()){
+        std::cout << "receivers do not match CTx" << std::endl; 
+        return false; 
+    }
     for(auto i = 0; i < vec_Acct_receiver.size(); i++){
         if (newCTx.vec_pkr[i] != vec_Acct_receiver[i].pk){
             std::cerr << i<<"-th receiver does not match ctx" << std::endl; 
-- 
2.43.0


From d7b46b2fec315fdbb646ce47f5233d5320290662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 14/27] fix: NetIO send/receive stop with an error instead of
 looping forever when the peer closes the connection

---
 netio/stream_channel.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index f411deb..d69c4df 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -203,8 +203,12 @@ void NetIO::SendDataInternal(const void *data, size_t LEN)
 	// continue write data to stream until all reach the desired LEN
 	while(HAVE_SENT_LEN < LEN) {
 		size_t SENT_LEN = fwrite((char*)data+HAVE_SENT_LEN, 1, LEN-HAVE_SENT_LEN, stream);
-		if (SENT_LEN >= 0) HAVE_SENT_LEN+=SENT_LEN;
-		else fprintf(stderr, "error: fail to send data %zu\n", SENT_LEN);
+		if (SENT_LEN > 0) HAVE_SENT_LEN+=SENT_LEN;
+		else {
+			// fwrite reports an error (e.g. the peer has closed the connection) by writing nothing
+			fprintf(stderr, "error: fail to send data: %zu of %zu bytes sent\n", HAVE_SENT_LEN, LEN);
+			exit(EXIT_FAILURE);
+		}
 	}
 	/* 
 	** very important: 
@@ -220,8 +224,12 @@ void NetIO::ReceiveDataInternal(const void *data, size_t LEN)
 	// continue receive data to stream until all reach the desired LEN
 	while(HAVE_RECEIVE_LEN < LEN) {
 		size_t RECEIVE_LEN = fread((char*)data+HAVE_RECEIVE_LEN, 1, LEN-HAVE_RECEIVE_LEN, stream);
-		if (RECEIVE_LEN >= 0) HAVE_RECEIVE_LEN+=RECEIVE_LEN;
-		else fprintf(stderr, "error: fail to receive data %zu\n", RECEIVE_LEN);
+		if (RECEIVE_LEN > 0) HAVE_RECEIVE_LEN+=RECEIVE_LEN;
+		else {
+			// fread reports an error or the end of the stream (the peer has closed the connection) by reading nothing
+			fprintf(stderr, "error: fail to receive data: %zu of %zu bytes received\n", HAVE_RECEIVE_LEN, LEN);
+			exit(EXIT_FAILURE);
+		}
 	}
 }
 
-- 
2.43.0


From 3e61236726f3f208efe4e69b6231f1065b6cef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 15/27] fix: NetIO::SendBytesVector does not read the first
 element of an empty vector

---
 netio/stream_channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index d69c4df..f1dc749 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -435,7 +435,7 @@ void NetIO::ReceiveBlock(block &a)
 void NetIO::SendBytesVector(const std::vector<std::vector<uint8_t>>& A) 
 {
 	size_t NUM = A.size(); 
-	size_t LEN = A[0].size(); 
+	size_t LEN = A.empty() ? 0 : A[0].size(); 
 	SendInteger(NUM);
 	SendInteger(LEN);  
 
-- 
2.43.0


From 52220489e1f046d48cd5d4b7e878c846522e7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 16/27] fix: mqRPMT PSI-card-sum receiver sums one value per
 sender item when the set sizes differ

---
 mpc/pso/mqrpmt_psi_card_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc/pso/mqrpmt_psi_card_sum.hpp b/mpc/pso/mqrpmt_psi_card_sum.hpp
index 5c5a92e..438d5c2 100644
--- a/mpc/pso/mqrpmt_psi_card_sum.hpp
+++ b/mpc/pso/mqrpmt_psi_card_sum.hpp
@@ -189,7 +189,7 @@ size_t Receive(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     std::vector<std::vector<uint8_t>> vec_result = ALSZOTE::ReceiveByteVector(io, pp.ote_part, 
         vec_indication_bit, vec_indication_bit.size());
 
-    std::vector<BigInt> vec_v(pp.RECEIVER_ITEM_NUM); 
+    std::vector<BigInt> vec_v(vec_result.size()); // one masked value per item of Sender 
 
     size_t CARDINALITY = 0; 
     for(auto i = 0; i < vec_indication_bit.size(); i++){
-- 
2.43.0


From 73a8d6ac947e254a561b5c1fa6177636751bb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 17/27] fix: VOLE pads OT messages and choice bits to the
 extended OT length it runs on

---
 mpc/vole/vole.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpc/vole/vole.hpp b/mpc/vole/vole.hpp
index 5237363..e83539f 100644
--- a/mpc/vole/vole.hpp
+++ b/mpc/vole/vole.hpp
@@ -155,6 +155,9 @@ namespace VOLE {
     		else{
         		ALSZOTE::FetchPP(pp, pp_filename);
     		}
+    		// pad to the length OTE runs on
+    		vec_m0.resize(EXTEND_LEN);
+    		vec_m1.resize(EXTEND_LEN);
     		ALSZOTE::Send(server_io, pp, vec_m0, vec_m1, EXTEND_LEN);
 
         	
@@ -236,6 +239,7 @@ namespace VOLE {
 			uint64_t add_mod =128 - (select_len % 128);
 			EXTEND_LEN = select_len + add_mod;
 			
+			vec_select_bit.resize(EXTEND_LEN); // pad to the length OTE runs on
 			vec_total_m = ALSZOTE::Receive(client_io, pp, vec_select_bit, EXTEND_LEN);
 			vec_total_m.resize(select_len);
 		}
-- 
2.43.0


From 8554d486ae1078ae4d11d1edc576fb8f7a2b747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 18/27] fix: cwPRF-based PSI and mqRPMT draw their PRF keys and
 shuffles from a fresh seed

---
 mpc/psi/cwprf_psi.hpp     | 4 ++--
 mpc/rpmt/cwprf_mqrpmt.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc/psi/cwprf_psi.hpp b/mpc/psi/cwprf_psi.hpp
index 87f5251..29f9b4d 100644
--- a/mpc/psi/cwprf_psi.hpp
+++ b/mpc/psi/cwprf_psi.hpp
@@ -128,7 +128,7 @@ void Send(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     auto start_time = std::chrono::steady_clock::now(); 
 
     uint8_t k1[32];
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k1, 32);  // pick a key k1
 
     std::vector<EC25519Point> vec_Hash_Y(pp.SENDER_ITEM_NUM);
@@ -183,7 +183,7 @@ std::vector<block> Receive(NetIO &io, PP &pp, std::vector<block> &vec_X)
     auto start_time = std::chrono::steady_clock::now(); 
 
     uint8_t k2[32];
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k2, 32);  // pick a key k2
 
     std::vector<EC25519Point> vec_Hash_X(pp.RECEIVER_ITEM_NUM); 
diff --git a/mpc/rpmt/cwprf_mqrpmt.hpp b/mpc/rpmt/cwprf_mqrpmt.hpp
index 3f50b4a..69dd057 100644
--- a/mpc/rpmt/cwprf_mqrpmt.hpp
+++ b/mpc/rpmt/cwprf_mqrpmt.hpp
@@ -250,7 +250,7 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     auto start_time = std::chrono::steady_clock::now(); 
 
     std::vector<uint8_t> k1(32);
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k1.data(), 32);  // pick a key k1
 
     std::vector<EC25519Point> vec_Hash_Y(pp.SERVER_LEN);
@@ -327,7 +327,7 @@ void Client(NetIO &io, PP &pp, std::vector<block> &vec_X)
     auto start_time = std::chrono::steady_clock::now(); 
 
     std::vector<uint8_t> k2(32);
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, k2.data(), 32);  // pick a key k2
 
     std::vector<EC25519Point> vec_Hash_X(pp.CLIENT_LEN); 
-- 
2.43.0


From d286e82b14aea29f59b0029ee57acd7b314c84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 19/27] fix: OTE-based OPRF draws its OT choices and OT
 messages from a fresh seed

---
 mpc/oprf/ote_oprf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/oprf/ote_oprf.hpp b/mpc/oprf/ote_oprf.hpp
index 182289f..1d23d04 100644
--- a/mpc/oprf/ote_oprf.hpp
+++ b/mpc/oprf/ote_oprf.hpp
@@ -246,7 +246,7 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp)
     auto start_time = std::chrono::steady_clock::now(); 
 
     /* step 1: base OT (page 10 figure 4 item1) */
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0);
+    PRG::Seed seed = PRG::SetSeed();
 	
     std::vector<uint8_t> vec_selection_bit = GenRandomBits(seed, pp.MATRIX_WIDTH); 
 
@@ -385,7 +385,7 @@ std::vector<std::vector<uint8_t>> Client(NetIO &io, PP &pp, std::vector<block> &
     auto start_time = std::chrono::steady_clock::now(); 
     
     /* step 1: base OT (page 10 figure 4 item1) */
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); 
+    PRG::Seed seed = PRG::SetSeed(); 
     std::vector<block> vec_K0 = PRG::GenRandomBlocks(seed, pp.MATRIX_WIDTH);
     std::vector<block> vec_K1 = PRG::GenRandomBlocks(seed, pp.MATRIX_WIDTH);
 
-- 
2.43.0


From 5e554e933822d6560ce5992ddd31d7a2398f7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 20/27] fix: x25519 ElGamal draws secret keys and encryption
 coins from a fresh seed

---
 pke/elgamal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pke/elgamal.hpp b/pke/elgamal.hpp
index 19e5863..3d921da 100755
--- a/pke/elgamal.hpp
+++ b/pke/elgamal.hpp
@@ -280,7 +280,7 @@ PP Setup()
 std::tuple<EC25519Point, std::vector<uint8_t>> KeyGen(const PP &pp)
 { 
     std::vector<uint8_t> sk(32); 
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, sk.data(), 32);  // pick a random generator
     EC25519Point pk = pp.g * sk; // pk = g^sk  
 
@@ -300,7 +300,7 @@ CT Enc(const PP &pp, const EC25519Point &pk, const EC25519Point &m)
     CT ct;
     // generate the random coins 
     std::vector<uint8_t> r(32); 
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG
     GenRandomBytes(seed, r.data(), 32);  // pick a random number
 
     // begin encryption
-- 
2.43.0


From d6d5e3044d31f3284f81094be9a73b04a8fa20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:32 +0000
Subject: [PATCH 21/27] fix: reduce EncRelation responses modulo the group
 order

Unreduced responses delta*x + a and z reveal the secret index (and with it
the signer of an accountable ring signature) through their magnitude.
---
 zkp/nizk/nizk_enc_relation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index b553866..096a1fc 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -180,7 +180,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     // compute the response     
     proof.vec_f.resize(pp.m * pp.n); 
     for(auto i = 0; i < pp.m * pp.n; i++){
-        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
+        proof.vec_f[i] = (vec_delta[i] * x + vec_a[i]) % order;
     }
     proof.zA = (rB * x + rA) % order; 
     proof.zC = (rC * x + rD) % order; 
@@ -195,6 +195,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     for(auto k = 0; k < pp.m; k++){
         proof.z -= vec_rho[k] * exp_x[k]; 
     }
+    proof.z = proof.z % order; 
 
     return proof;
 
-- 
2.43.0


From 17807378d930585ffb856c7544a2c8f02a818d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:32 +0000
Subject: [PATCH 22/27] fix: CBCAES hashes the zero-padded copy of its input

The padded buffer was prepared but the blocks were loaded from the caller's
input, reading past its end whenever the length is not a multiple of 16.
---
 crypto/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/hash.hpp b/crypto/hash.hpp
index c4c1e64..010c7df 100644
--- a/crypto/hash.hpp
+++ b/crypto/hash.hpp
@@ -49,7 +49,7 @@ void CBCAES(const unsigned char *input, size_t HASH_INPUT_LEN, unsigned char *ou
 
     block data[BLOCK_NUM];
     for(auto i = 0; i < BLOCK_NUM; i++){
-        data[i] = _mm_load_si128((block *)(input + i*16));
+        data[i] = _mm_loadu_si128((block *)(buffer + i*16));
     } 
 
     // use CBC-AES hash: digest lies in the last block
-- 
2.43.0


From c53f6a3894d327fc309dcf734b24af3629aa4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:32 +0000
Subject: [PATCH 23/27] fix: Block::ClearBit clears bit n instead of everything
 else

andnot complements its first operand; the operands were swapped.
---
 crypto/block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.hpp b/crypto/block.hpp
index 8040e91..37046c7 100644
--- a/crypto/block.hpp
+++ b/crypto/block.hpp
@@ -54,7 +54,7 @@ void SetBit(block &a, size_t n)
 // set the n-th bit = 0
 void ClearBit(block &a, size_t n)
 {
-    a = _mm_andnot_si128(a, GenMaskBlock(n));
+    a = _mm_andnot_si128(GenMaskBlock(n), a);
 }
 
 inline std::vector<block> AND(std::vector<block> &vec_a, std::vector<block> &vec_b) 
-- 
2.43.0


From 26e544bcd106a4f3664b6b239b64b45c250c0d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:32 +0000
Subject: [PATCH 24/27] fix: cuckoo filter hashes exactly the bytes of a
 compressed point

The compressed encoding fills POINT_COMPRESSED_BYTE_LEN bytes; hashing
POINT_BYTE_LEN bytes of the buffer included uninitialised memory, so an
inserted point could be reported absent.
---
 filter/cuckoo_filter.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index de4f8a0..a6ddb93 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -154,9 +154,9 @@ public:
     // You can insert any custom-type data you like as below
     inline bool Insert(const ECPoint &A)
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
-        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
-        return PlainInsert(buffer, POINT_BYTE_LEN);
+        unsigned char buffer[POINT_COMPRESSED_BYTE_LEN]; 
+        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, nullptr);
+        return PlainInsert(buffer, POINT_COMPRESSED_BYTE_LEN);
     }
 
     inline bool Insert(const std::vector<ECPoint> &vec_A)
@@ -164,11 +164,11 @@ public:
         bool insert_status = true; 
 
         size_t num = vec_A.size();
-        unsigned char *buffer = new unsigned char[num*POINT_BYTE_LEN]; 
+        unsigned char *buffer = new unsigned char[num*POINT_COMPRESSED_BYTE_LEN]; 
         for(auto i = 0; i < num; i++){
             EC_POINT_point2oct(group, vec_A[i].point_ptr, POINT_CONVERSION_COMPRESSED, 
-                               buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN, nullptr);
-            if(PlainInsert(buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN) == false){
+                               buffer+i*POINT_COMPRESSED_BYTE_LEN, POINT_COMPRESSED_BYTE_LEN, nullptr);
+            if(PlainInsert(buffer+i*POINT_COMPRESSED_BYTE_LEN, POINT_COMPRESSED_BYTE_LEN) == false){
                 insert_status = false; break;
             } 
         }
@@ -231,9 +231,9 @@ public:
 
     inline bool Contain(const ECPoint& A) 
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
-        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
-        return PlainContain(buffer, POINT_BYTE_LEN);
+        unsigned char buffer[POINT_COMPRESSED_BYTE_LEN]; 
+        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, nullptr);
+        return PlainContain(buffer, POINT_COMPRESSED_BYTE_LEN);
     }
 
 
@@ -291,9 +291,9 @@ public:
 
     inline bool Delete(const ECPoint& A) 
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
-        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
-        return PlainDelete(buffer, POINT_BYTE_LEN);
+        unsigned char buffer[POINT_COMPRESSED_BYTE_LEN]; 
+        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, nullptr);
+        return PlainDelete(buffer, POINT_COMPRESSED_BYTE_LEN);
     }
 
     // read tag from i-th bucket j-th slot
-- 
2.43.0


From 2a687538e2f51cb7d15af91f547559dc50c7bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:32 +0000
Subject: [PATCH 25/27] fix: cuckoo filter deletion removes one element only

Deleting an element also removed a second element with the same tag from
the other candidate bucket or the victim cache, which was then reported
absent although it had never been deleted.
---
 filter/cuckoo_filter.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index a6ddb93..a0817a9 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -263,14 +263,12 @@ public:
             delete_status = true;
             TrySaveVictim(index1, delete_slot_index, tag);
         }
-    
-        if (DeleteTagFromBucket(index2, tag, delete_slot_index)) {
+        else if (DeleteTagFromBucket(index2, tag, delete_slot_index)) {
             inserted_element_num--;
             delete_status = true;
             TrySaveVictim(index2, delete_slot_index, tag);
         } 
-    
-        if (victim.used && tag == victim.tag && (index1 == victim.bucket_index || index2 == victim.bucket_index)) {
+        else if (victim.used && tag == victim.tag && (index1 == victim.bucket_index || index2 == victim.bucket_index)) {
             victim.used = 0;
             delete_status = true;
         }
-- 
2.43.0


From 55f7dc0c2356146b6ec2dd8390d7762e2761e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:48 +0000
Subject: [PATCH 26/27] fix: inserting a string into a cuckoo filter inserts
 the string, not its characters

Taking the container by non-const reference made the container overload the
better match for a non-const std::string (whose template matches Container
since C++17), so its characters were inserted one by one and the string
itself was reported absent.
---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index a0817a9..e2fdc51 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -190,7 +190,7 @@ public:
     }
 
     template <class T, class Allocator, template <class,class> class Container>
-    inline bool Insert(Container<T, Allocator>& container)
+    inline bool Insert(const Container<T, Allocator>& container)
     {
         bool insert_status = true; 
         for(auto i = 0; i < container.size(); i++){
-- 
2.43.0


From 1e42554025664541d26f83af80897f30582a567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:43 +0000
Subject: [PATCH 27/27] fix: EncRelation verifier compares the first response
 modulo the group order

Responses are reduced by the prover, so their sum equals the challenge only
modulo the group order.
---
 zkp/nizk/nizk_enc_relation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index 096a1fc..dcd0e78 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -231,7 +231,7 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
         for(auto i = 1; i < pp.n; i++){
             right += -proof.vec_f[j * pp.n + i]; 
         }
-        if(proof.vec_f[j * pp.n] != right) vec_condition[0] = false;
+        if((proof.vec_f[j * pp.n] - right) % order != bn_0) vec_condition[0] = false;
     }
 
     // check condition 2
-- 
2.43.0


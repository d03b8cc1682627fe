From e7424c73b211d9da0006a0bbe96397f886debc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 01/21] fix: KZG opening of the zero polynomial no longer
 panics

---
 kzg/src/scheme.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..6ae8682 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -109,8 +109,10 @@ impl KzgScheme {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
         let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients and evaluates to zero
+        if let Some(first) = new_poly.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -133,8 +135,10 @@ impl KzgScheme {
         let z = z.into();
         let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients and evaluates to zero
+        if let Some(first) = polynomial.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From ada04738938567748995524a229dd98c062ef91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 02/21] fix: sum of two KZG openings uses both witness points

---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..c5c6059 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From a14405dffece1af8d5fff04a71a80442b7d776b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 03/21] fix: PLONK challenges are bound to the public inputs

---
 plonk/src/prover.rs   | 1 +
 plonk/src/verifier.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..f62a22d 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -96,6 +96,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     println!("ROUND 2");
 
     let mut challenge = ChallengeGenerator::<Sha256>::default();
+    challenge.feed(&scheme.commit(compiled_circuit.gate_constraints().pi_x()));
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..c058fdc 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(compiled_circuit, &proof, &scheme);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -186,10 +187,12 @@ fn get_circuit_commitment(
 
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
+    compiled_circuit: &CompiledCircuit,
     proof: &Proof,
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
     let commitments = [
+        scheme.commit(compiled_circuit.gate_constraints().pi_x()),
         proof.a_commit.clone(),
         proof.b_commit.clone(),
         proof.c_commit.clone(),
-- 
2.43.0


From fc5e96936adaa567ea78c8d1e1d7c08c8f841679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 04/21] fix: PLONK prover derives its challenges with the
 requested hash

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index f62a22d..b49e139 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&scheme.commit(compiled_circuit.gate_constraints().pi_x()));
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
-- 
2.43.0


From a0eb24bc3d685aae63808b635cc5d6dd419c5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 05/21] fix: PLONK circuits with a single gate compile

---
 plonk/src/circuit.rs                               | 4 +---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..b334028 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -147,9 +147,7 @@ impl Circuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
-
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..9328343 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From 7324f6260bc524289529ec23b5f40ea60bb30348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 06/21] fix: powers of numbers and of longer names are expanded
 correctly

---
 .../common_preprocessed_input/cpi_parser.rs   | 43 +-----------
 plonk/src/parser.rs                           | 67 ++++++++++---------
 2 files changed, 36 insertions(+), 74 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..30096b9 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -10,6 +10,7 @@ use kzg::scheme::KzgScheme;
 use crate::common_preprocessed_input::cpi_circuit::CPICircuit;
 use crate::common_preprocessed_input::cpi_parser::TypeOfCircuit::Multiplication;
 use crate::constraint::{CopyConstraints, GateConstraints};
+use crate::parser::Parser;
 
 /// Enum defining the type of circuit gate
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
@@ -376,47 +377,7 @@ impl CPIGenerator {
     /// - Expand simple ^ into *
     /// - Delete space character " "
     fn normalize(string: &str) -> String {
-        let string = string.to_lowercase();
-        let mut result = String::new();
-        let mut last_char = ' ';
-        let mut number_buffer = String::new();
-        let mut flag = false;
-        for char in string.chars() {
-            if char == ' ' {
-                continue;
-            }
-            if char == '^' {
-                flag = true;
-            } else if !char.is_numeric() {
-                if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
-                        panic!("can't parse polynomial")
-                    }
-                }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
-                }
-            }
-        }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
-        }
-        result
+        Parser::parse_string(string)
     }
 }
 
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..60473d1 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -370,49 +370,50 @@ impl Parser {
     /// - Lower case
     /// - Expand simple ^ into *
     /// - Delete space character " "
-    fn parse_string(string: &str) -> String {
+    pub(crate) fn parse_string(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
-        let mut number_buffer = String::new();
-        let mut flag = false;
-        for char in string.chars() {
-            if char == ' ' {
-                continue;
+        let mut exponent: Option<String> = None;
+        for char in string.chars().filter(|char| *char != ' ') {
+            if let Some(digits) = &mut exponent {
+                if char.is_numeric() {
+                    digits.push(char);
+                    continue;
+                }
+                if char == '^' {
+                    panic!("can't parse polynomial")
+                }
+                Self::expand_power(&mut result, digits);
+                exponent = None;
             }
             if char == '^' {
-                flag = true;
-            } else if !char.is_numeric() {
-                if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
-                        panic!("can't parse polynomial")
-                    }
-                }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
+                exponent = Some(String::new());
             } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
-                }
+                result.push(char);
             }
         }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
+        if let Some(digits) = &exponent {
+            Self::expand_power(&mut result, digits);
         }
         result
     }
+
+    /// Replace the last operand of `result` by its power
+    fn expand_power(result: &mut String, exponent: &str) {
+        let start = result
+            .rfind(['+', '-', '*', '='])
+            .map_or(0, |position| position + 1);
+        let base = result[start..].to_string();
+        let exponent = exponent.parse::<u32>().expect("can't parse polynomial");
+        assert!(!base.is_empty(), "can't parse polynomial");
+        if exponent == 0 {
+            result.replace_range(start.., "1");
+        }
+        for _ in 1..exponent {
+            result.push('*');
+            result.push_str(&base);
+        }
+    }
 }
 
 //TODO: implement / operator
-- 
2.43.0


From 071874200a999e5188fbd6f61412b060181b9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 07/21] fix: constants keep one name so that their wires stay
 pinned

---
 plonk/src/common_preprocessed_input/cpi_parser.rs | 13 +++++++++++--
 plonk/src/parser.rs                               | 10 ++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 30096b9..4be62c7 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -269,7 +269,7 @@ impl CPIGenerator {
                         left,
                         right,
                         bottom,
-                        Fr::from(gate.left.value_string.parse::<i32>().unwrap()),
+                        Self::constant_value(&gate.left.value_string).unwrap(),
                         Fr::from(0),
                     );
                 }
@@ -339,6 +339,15 @@ impl CPIGenerator {
         result
     }
 
+    /// Get the value of a constant, which may be negated once more by the
+    /// right-hand side of the equation
+    fn constant_value(value: &str) -> Option<Fr> {
+        match value.strip_prefix('-') {
+            Some(value) => value.parse::<i32>().ok().map(|value| -Fr::from(value)),
+            None => value.parse::<i32>().ok().map(Fr::from),
+        }
+    }
+
     /// Check if the value represents a constant and generate a constant gate if so
     fn check_constant(
         &self,
@@ -347,7 +356,7 @@ impl CPIGenerator {
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
         value: String,
     ) {
-        if value.parse::<i32>().is_ok() {
+        if Self::constant_value(&value).is_some() {
             self.generate_constant_gate(gate_list, gate_set, position_map, ParserWire::new(value));
         };
     }
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 60473d1..dbd0520 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -325,18 +325,16 @@ impl Parser {
             None => {
                 eprintln!("value = {:#?}", value);
                 let constant = value.parse::<i32>().unwrap();
+                let constant = Fr::from(constant);
                 let wire = if is_negative {
-                    Wire::new(
-                        "-".to_string() + constant.to_string().as_str(),
-                        Fr::from(constant).neg(),
-                    )
+                    Wire::new("-".to_string() + value, constant.neg())
                 } else {
-                    Wire::new(constant.to_string(), Fr::from(constant))
+                    Wire::new(value.to_string(), constant)
                 };
                 #[cfg(test)]
                 println!("{:?} {}", wire, is_negative);
                 self.generate_constant_gate(gate_list, gate_set, position_map, wire.clone());
-                Fr::from(constant)
+                constant
             }
         };
         if is_negative {
-- 
2.43.0


From 0ec64b3e3ac4f53a739c02e39618f74373fde07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:55 +0000
Subject: [PATCH 08/21] fix: negated variables are tied to the variable in
 parsed circuits

---
 .../common_preprocessed_input/cpi_parser.rs   |  5 ++--
 plonk/src/parser.rs                           | 24 ++++++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 4be62c7..4d260cd 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -147,9 +147,8 @@ impl CPIGenerator {
         split_list
             .into_iter()
             .map(|split_list| {
-                split_list
-                    .split('*')
-                    .map(|s| s.trim().to_string())
+                Parser::split_factors(&split_list)
+                    .into_iter()
                     .map(|s| {
                         self.check_constant(
                             &mut gate_list.borrow_mut(),
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index dbd0520..91ede41 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -113,9 +113,8 @@ impl Parser {
         split_list
             .into_iter()
             .map(|split_list| {
-                split_list
-                    .split('*')
-                    .map(|s| s.trim().to_string())
+                Self::split_factors(&split_list)
+                    .into_iter()
                     .map(|s| {
                         Wire::new(
                             s.clone(),
@@ -362,6 +361,25 @@ impl Parser {
         }
     }
 
+    /// Split a term into its factors
+    ///
+    /// A negated variable becomes a product with -1, which ties it to the variable itself
+    pub(crate) fn split_factors(term: &str) -> Vec<String> {
+        let mut factors = Vec::new();
+        for factor in term.split('*') {
+            let mut factor = factor.trim();
+            while let Some(rest) = factor.strip_prefix('-') {
+                if rest.parse::<i32>().is_ok() {
+                    break;
+                }
+                factors.push("-1".to_string());
+                factor = rest;
+            }
+            factors.push(factor.to_string());
+        }
+        factors
+    }
+
     /// Parse a polynomial string to be compatible with parser
     ///
     /// Feature:
-- 
2.43.0


From cb1e2b6bcb7033853b4f7bc32f11024b9bd786bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 09/21] fix: witness names are matched regardless of case, as
 equations are

---
 plonk/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 91ede41..4ce3449 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -79,7 +79,7 @@ impl Parser {
     /// parser.parse("x=1");
     /// ```
     pub fn add_witness(&mut self, variable: &str, value: Fr) {
-        self.witnesses.insert(variable.to_string(), value);
+        self.witnesses.insert(variable.to_lowercase(), value);
     }
 
     /// Parse the input string to generate the circuit
-- 
2.43.0


From 24d50eb1c3297502b50792b1ad6968f4fe6f06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 10/21] fix: FRI openings are checked against the committed
 layers

---
 fri/src/merkle_tree.rs |  7 +++++++
 fri/src/verifier.rs    | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..3f7a6db 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,13 @@ pub struct MerkleProof<F: PrimeField> {
     root: F,
 }
 
+impl<F: PrimeField> MerkleProof<F> {
+    /// Whether this proof is for a tree with the given root and number of leaves.
+    pub fn is_for(&self, root: F, number_of_leaves: usize) -> bool {
+        self.root == root && 1 << self.hash_proof.len() == number_of_leaves
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..bd730a0 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -13,7 +13,7 @@ use crate::prover::{Decommitment, Proof};
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
     // regenerate random_r list
-    let merkle_roots = proof.layers_root;
+    let merkle_roots = proof.layers_root.clone();
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
         .into_iter()
@@ -39,6 +39,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            &proof.layers_root,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -51,6 +52,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    layers_root: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
@@ -84,6 +86,12 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
+        if !path.is_for(layers_root[i], cur_domain_size)
+            || !sym_path.is_for(layers_root[i], cur_domain_size)
+        {
+            return Err(String::from("the path is not one of this layer!"));
+        }
+
         if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
             return Err(String::from("verify Merkle path failed!"));
         }
-- 
2.43.0


From f19dd637fb732447093c5fc73176a5ad89e6184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 11/21] fix: FRI proofs that leave out queries or layers are
 rejected

---
 fri/src/verifier.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index bd730a0..3733a61 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,6 +12,8 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    check_shape(&proof)?;
+
     // regenerate random_r list
     let merkle_roots = proof.layers_root.clone();
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
@@ -49,6 +51,31 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     Ok(())
 }
 
+/// Check that the proof opens every layer for every query.
+fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
+    let number_of_layers = proof.layers_root.len();
+    if !proof.domain_size.is_power_of_two()
+        || proof.coset.is_zero()
+        || number_of_layers == 0
+        || number_of_layers > proof.domain_size.ilog2() as usize
+    {
+        return Err(String::from("wrong domain or number of layers!"));
+    }
+    if proof.decommitment_list.len() != proof.number_of_queries {
+        return Err(String::from("wrong number of queries!"));
+    }
+    let complete = |decommitment: &Decommitment<F>| {
+        decommitment.evaluations.len() == number_of_layers
+            && decommitment.auth_paths.len() == number_of_layers
+            && decommitment.sym_evaluations.len() == number_of_layers
+            && decommitment.sym_auth_paths.len() == number_of_layers
+    };
+    if !proof.decommitment_list.iter().all(complete) {
+        return Err(String::from("a query does not open every layer!"));
+    }
+    Ok(())
+}
+
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
-- 
2.43.0


From c7c03d8b28692aa6a4a976bf5d006ca0b8a82ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 12/21] fix: FRI proves polynomials that fold to zero, and
 constants

---
 fri/src/prover.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..9702e1f 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -67,7 +67,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
         domain_size /= 2;
     }
 
-    assert_eq!(poly.len(), 1);
+    assert!(poly.len() <= 1);
     let constant = poly.evaluate(&F::ZERO);
     transcript.digest(constant);
 
@@ -143,7 +143,9 @@ pub fn generate_proof<T: Digest + Default, F: PrimeField>(
     blowup_factor: usize,
     number_of_queries: usize,
 ) -> Proof<F> {
-    let domain_size = (poly.coeffs.len() * blowup_factor).next_power_of_two();
+    let domain_size = (poly.coeffs.len() * blowup_factor)
+        .next_power_of_two()
+        .max(2);
     let coset = F::GENERATOR;
     let number_of_layers = domain_size.ilog2() as usize;
 
-- 
2.43.0


From 19cfb40c06934e051c6f0ddfe010879148253bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 13/21] fix: FRI stops folding at the claimed degree so that
 low degree is enforced

---
 fri/src/prover.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 9702e1f..da6916a 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -147,7 +147,9 @@ pub fn generate_proof<T: Digest + Default, F: PrimeField>(
         .next_power_of_two()
         .max(2);
     let coset = F::GENERATOR;
-    let number_of_layers = domain_size.ilog2() as usize;
+    // fold until the claimed polynomial, not the whole domain, is used up:
+    // any values fold to a constant on a domain of size 1
+    let number_of_layers = (poly.coeffs.len().next_power_of_two().ilog2() as usize).max(1);
 
     let (const_val, mut transcript, fri_layers) =
         folding_phase::<T, F>(poly, coset, domain_size, number_of_layers);
-- 
2.43.0


From 6b244c468adb43870eee4d4e408beef4aaddc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 14/21] fix: Merkle trees of any size can prove their last leaf

---
 fri/src/merkle_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 3f7a6db..e56ca87 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -50,6 +50,8 @@ impl<F: PrimeField> MerkleTree<F> {
         let new_len = evaluations.len().next_power_of_two();
         let depth = new_len.ilog2() as usize;
 
+        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
+
         let first_level = evaluations.iter().map(hash).collect::<Vec<_>>();
 
         let mut internal_nodes = vec![first_level];
@@ -59,8 +61,6 @@ impl<F: PrimeField> MerkleTree<F> {
             internal_nodes.push(next_level);
         }
 
-        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
-
         Self {
             internal_nodes,
             leaves: evaluations,
-- 
2.43.0


From 5a5a5f83eaa7393c415aa210911ac06068de74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 15/21] verif: guarded access to the Merkle tree for the
 harness

---
 fri/src/lib.rs         |  6 ++++++
 fri/src/merkle_tree.rs | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/fri/src/lib.rs b/fri/src/lib.rs
index 1b9684c..eb480fb 100644
--- a/fri/src/lib.rs
+++ b/fri/src/lib.rs
@@ -5,3 +5,9 @@ mod hasher;
 mod merkle_tree;
 pub mod prover;
 pub mod verifier;
+
+/// What the verification harness needs of the private modules.
+#[cfg(zkp_verif)]
+pub mod verif_hooks {
+    pub use crate::merkle_tree::{verify_merkle_proof, MerkleProof, MerkleTree};
+}
diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index e56ca87..2bf3a8a 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -22,6 +22,21 @@ impl<F: PrimeField> MerkleProof<F> {
     }
 }
 
+#[cfg(zkp_verif)]
+impl<F: PrimeField> MerkleProof<F> {
+    pub fn from_parts(index: usize, leaf_val: F, hash_proof: Vec<F>, root: F) -> Self {
+        Self {
+            index,
+            leaf_val,
+            hash_proof,
+            root,
+        }
+    }
+    pub fn parts(&self) -> (Vec<F>, F) {
+        (self.hash_proof.clone(), self.root)
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
-- 
2.43.0


From 57e184978a2068a42c0fed5c106ca815e879c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 16/21] fix: Nova folding challenges are bound to the folded
 instances

---
 nova/src/circuit.rs            |  4 ++--
 nova/src/nifs/nifs_prover.rs   |  4 ++--
 nova/src/nifs/nifs_verifier.rs | 10 +++++-----
 nova/src/transcript.rs         | 11 +++++++++++
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..b77dcc2 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -101,8 +101,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
-            transcript.feed_scalar_num(u_i.u);
-            transcript.feed_scalar_num(big_u_i.unwrap().u);
+            transcript.feed_instance(u_i);
+            transcript.feed_instance(big_u_i.unwrap());
             transcript.feed(com_t.unwrap());
             let [r] = transcript.generate_challenges();
 
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..cf9e37b 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,8 +29,8 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
-        transcript.feed_scalar_num(fi1.u);
-        transcript.feed_scalar_num(fi2.u);
+        transcript.feed_instance(fi1);
+        transcript.feed_instance(fi2);
         transcript.feed(&com_t);
         let [r] = transcript.generate_challenges();
 
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..4dc8bf4 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -30,7 +30,7 @@ impl<T: Digest + Default> NIFS<T> {
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // verify challenge.
-        let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
+        let mut res = Self::verify_challenge(proof.r, fi1, fi2, com_t, transcript);
         res.as_ref()?;
 
         // verify opening.
@@ -43,14 +43,14 @@ impl<T: Digest + Default> NIFS<T> {
     /// Verify challenge r via Fiat-Shamir
     pub fn verify_challenge(
         r: ScalarField,
-        fi1_u: ScalarField,
-        fi2_u: ScalarField,
+        fi1: &FInstance,
+        fi2: &FInstance,
         com_t: &KzgCommitment,
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // Recreate challenge r
-        transcript.feed_scalar_num(fi1_u);
-        transcript.feed_scalar_num(fi2_u);
+        transcript.feed_instance(fi1);
+        transcript.feed_instance(fi2);
         transcript.feed(com_t);
 
         let [new_r] = transcript.generate_challenges();
diff --git a/nova/src/transcript.rs b/nova/src/transcript.rs
index 6014387..d4ed92c 100644
--- a/nova/src/transcript.rs
+++ b/nova/src/transcript.rs
@@ -7,6 +7,7 @@ use rand::rngs::StdRng;
 use rand::SeedableRng;
 use sha2::Digest;
 
+use crate::r1cs::FInstance;
 use kzg::commitment::KzgCommitment;
 use kzg::types::ScalarField;
 
@@ -87,6 +88,16 @@ impl<T: Digest + Default> Transcript<T> {
         self.generated = false;
     }
 
+    /// Feed all parts of an instance, so that challenges depend on each of them.
+    pub fn feed_instance(&mut self, instance: &FInstance) {
+        self.feed(&instance.com_e);
+        self.feed_scalar_num(instance.u);
+        self.feed(&instance.com_w);
+        for x in &instance.x {
+            self.feed_scalar_num(*x);
+        }
+    }
+
     fn generate_rng_with_seed(&mut self) -> StdRng {
         if self.generated {
             panic!("I'm hungry! Feed me something first");
-- 
2.43.0


From 0babefab0e6b64a1b084d25e873255768390dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 17/21] fix: the augmented circuit checks the running instance
 it is given

---
 nova/src/circuit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index b77dcc2..c5d014d 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -86,7 +86,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             let u_dot_x = u_i.x[0];
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            let expected_hash = Self::hash_io(self.i, &self.z_0, &self.z_i, big_u_i.unwrap());
+            if u_dot_x != hash_fr || hash_x != expected_hash {
                 return Err(String::from("Public IO is wrong "));
             }
 
-- 
2.43.0


From dbd1c57be133b4d04951ed837a94839a62ccf3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 18/21] fix: folding the trivial witness keeps the errors of
 all constraints

---
 nova/src/nifs/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..d51c96d 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -67,12 +67,13 @@ impl<T: Digest + Default> NIFS<T> {
         t: &[ScalarField],
         // rT: ScalarField,
     ) -> FWitness {
-        let new_e = fw1
-            .e
+        // an error vector has an entry for each constraint, as `t` has;
+        // the trivial witness leaves out zeros
+        let entry = |e: &[ScalarField], i: usize| e.get(i).copied().unwrap_or_default();
+        let new_e = t
             .iter()
-            .zip(t.iter())
-            .zip(&fw2.e)
-            .map(|((e1, t), e2)| *e1 + r * *t + r * r * *e2)
+            .enumerate()
+            .map(|(i, t)| entry(&fw1.e, i) + r * *t + r * r * entry(&fw2.e, i))
             .collect();
 
         let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
-- 
2.43.0


From 1adbbfccdecc2a43c5a76a8d332d603f5a320e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 19/21] fix: an error vector of the wrong length is refused,
 not a panic

---
 nova/src/r1cs/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..1bb62f4 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -100,6 +100,10 @@ pub fn is_r1cs_satisfied(
     }
 
     // check if: Az * Bz = u*Cz + E
+    if r1cs.matrix_a.len() != f_witness.e.len() {
+        return Err(String::from("Error vector does not match with matrices"));
+    }
+
     let mut z = f_witness.w.clone();
     z.append(&mut f_instance.x.clone());
     z.push(f_instance.u);
-- 
2.43.0


From 4c81f0153ad0b2529b62b15e89420fe0b8b4bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 20/21] fix: the trivial pair satisfies R1CS with constants

---
 nova/src/r1cs/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 1bb62f4..e5b52fc 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -70,7 +70,8 @@ impl FWitness {
     }
 }
 
-/// This function creates a trivial instance-witness pair
+/// This function creates a trivial instance-witness pair, which satisfies
+/// every R1CS: all of it is zero, also the scalar u.
 #[allow(dead_code)]
 pub fn create_trivial_pair(
     x_len: usize,
@@ -79,7 +80,8 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From bf24a5be046d572b9a776dee82c10c2215b3bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 21/21] fix: accept variables whose first character is not
 ASCII in the parser

get_witness_value looked for a leading minus sign with `&value[..1]`, which
panics when the first character is longer than one byte.
---
 plonk/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 4ce3449..bf57c9c 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -313,7 +313,7 @@ impl Parser {
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
     ) -> Fr {
         let mut is_negative = false;
-        if &value[..1] == "-" {
+        if value.starts_with('-') {
             is_negative = true;
             value = &value[1..];
         }
-- 
2.43.0


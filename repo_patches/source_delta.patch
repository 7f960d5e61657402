From d7c307568052b2f66f213fddce5ef7f6231d22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:53 +0000
Subject: [PATCH 01/11] fix: fifa credits the penalty shoot-out win to the team
 that won it

The second team was given 0.75 points when the first team won the shoot-out and 0.5 when it won it itself.
---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 2299e2facf8495e6c8a1ad565517a5292e2727d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:16 +0000
Subject: [PATCH 02/11] fix: uscf_rating_period respects the rating floor of
 100

The head-to-head calculation never goes below 100, the rating period did.
---
 src/uscf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..7ba6029 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -413,7 +413,8 @@ pub fn uscf_rating_period(
             avg_opponent_rating,
             wins,
             losses,
-        );
+        )
+        .max(100.0);
 
         return USCFRating {
             rating: new_rating,
@@ -435,7 +436,8 @@ pub fn uscf_rating_period(
         score,
         exp_sum,
         *config,
-    );
+    )
+    .max(100.0);
 
     USCFRating {
         rating: new_rating,
-- 
2.43.0


From a0ad5e86c9da5d30fc52a49b47692ec1cbe5ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:23 +0000
Subject: [PATCH 03/11] fix: egf_rating_period respects the minimum rating of
 -900

Several losses in one rating period could push a player below the absolute minimum.
---
 src/egf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..75c707a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,7 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From 8954747f42a3ce69f34fe793d194b4e0412e2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:49 +0000
Subject: [PATCH 04/11] fix: ingo_rating_period keeps the rating when no games
 were played

The average over zero games turned the rating into NaN.
---
 src/ingo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..5b510c5 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,10 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From f9a1b447aaf04b635b13f72674d6758f48f7743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:56 +0000
Subject: [PATCH 05/11] fix: dwz_rating_period keeps the rating when no games
 were played

With an index of 0 the development coefficient is 0, and 0 games then divided by zero: the rating became NaN.
---
 src/dwz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwz.rs b/src/dwz.rs
index 2a3fb3f..a0bebcf 100644
--- a/src/dwz.rs
+++ b/src/dwz.rs
@@ -341,6 +341,10 @@ pub fn dwz(
 /// assert_eq!(new_player.index, 18);
 /// ```
 pub fn dwz_rating_period(player: &DWZRating, results: &[(DWZRating, Outcomes)]) -> DWZRating {
+    if results.is_empty() {
+        return *player;
+    }
+
     let points = results.iter().map(|r| r.1.to_chess_points()).sum();
 
     let expected_points = results.iter().map(|r| expected_score(player, &r.0).0).sum();
-- 
2.43.0


From cd5b4bc4ca0d7f4c78d4c93896aa2d3ab69aebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:08 +0000
Subject: [PATCH 06/11] fix: match_quality_multi_team works for two teams

The product with the mean vector was written in the wrong order, which happened to work only for three or more
teams, and the adjugate of a 1x1 matrix was 0 because the determinant of its (empty) minor was 0 instead of 1.
---
 src/trueskill/matrix.rs | 5 +++++
 src/trueskill/mod.rs    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..f71c5cc 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The determinant of an empty matrix is 1.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..0fb003d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1150,7 +1150,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From 35c8465fedf6499e070aa9dbaf6ef0c9a49a7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:16 +0000
Subject: [PATCH 07/11] fix: trueskill_multi_team returns a lone team unchanged
 instead of panicking

---
 src/trueskill/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 0fb003d..d540723 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,14 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // A single team has nobody to be compared to.
+    if teams_and_ranks.len() == 1 {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
-- 
2.43.0


From 8f7f14564d37e00aa0ffb07bc09b72d72a62b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:23 +0000
Subject: [PATCH 08/11] fix: trueskill expected_score_multi_team of a lone team
 is 1 instead of NaN

---
 src/trueskill/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index d540723..e11a656 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1361,6 +1361,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A lone team has no opponent to share the probability with.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From 8f19b689c559ca11524d23d1a6284352be8bf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:02 +0000
Subject: [PATCH 09/11] fix: a player with a weight of 0 keeps a finite
 trueskill rating

The message to a zero-weight player had infinite precision, which turned the ratings of the whole team into NaN.
---
 src/trueskill/factor_graph.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..408b16f 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,17 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+
+        // A term that does not contribute to the sum cannot learn anything from it.
+        if coeff == 0.0 {
+            return self.terms[index]
+                .borrow_mut()
+                .update_message(self.id, Gaussian::default());
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
-- 
2.43.0


From d068cb26422a9a5ab1e1ec840c18abe8d41c6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:54 +0000
Subject: [PATCH 10/11] fix: Weng-Lin probabilities of large ratings are not
 NaN

exp(rating / c) overflows once a rating exceeds about 709 c (and underflows
below -745 c), and inf / inf (0 / 0) made the probability, and every rating
computed from it, NaN. Only the difference of the ratings enters exp() now.
---
 src/weng_lin.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 033253f..45bfb41 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -912,8 +912,11 @@ pub fn expected_score_multi_team(teams: &[&[WengLinRating]], config: &WengLinCon
 
     let mut sum = 0.0;
 
+    // Measured from the best team, so that large ratings do not overflow exp() and make the results NaN.
+    let best = ratings.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+
     for rating in ratings {
-        let e = (rating / c).exp();
+        let e = ((rating - best) / c).exp();
         exps.push(e);
         sum += e;
     }
@@ -971,10 +974,8 @@ pub fn expected_score_rating_period(
 }
 
 fn p_value(rating_one: f64, rating_two: f64, c_value: f64) -> (f64, f64) {
-    let e1 = (rating_one / c_value).exp();
-    let e2 = (rating_two / c_value).exp();
-
-    let exp_one = e1 / (e1 + e2);
+    // Only the difference goes through exp(): a large rating alone would overflow it and make the result NaN.
+    let exp_one = (1.0 + ((rating_two - rating_one) / c_value).exp()).recip();
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
-- 
2.43.0


From c790472424d4038c0636e2f8689724424caa12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:54 +0000
Subject: [PATCH 11/11] fix: TrueSkill multi-team ratings stay finite after an
 extreme upset

For an outcome whose probability underflows w is exactly 1, the truncated
Gaussian got an infinite precision and every rating became NaN.
---
 src/trueskill/factor_graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index 408b16f..91efd66 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -270,7 +270,8 @@ impl TruncateFactor {
         let arg_2 = self.draw_margin * div.pi;
         let v = (self.v_func)(arg_1, arg_2, pi_sqrt);
         let w = (self.w_func)(arg_1, arg_2, pi_sqrt);
-        let denom = 1.0 - w;
+        // For a practically impossible outcome w is exactly 1, and the division would leave NaN ratings.
+        let denom = (1.0 - w).max(f64::EPSILON);
 
         let pi = div.pi / denom;
         let tau = pi_sqrt.mul_add(v, div.tau) / denom;
-- 
2.43.0


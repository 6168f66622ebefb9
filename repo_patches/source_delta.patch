From 201b4d1a4f4de7aa64e3924d3d431ced92926bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 01/13] fix: Defense::visitor_threshold returns the visitor
 threshold

It returned the difficulty factor of the current level instead.
---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From 8f3770a6ed62e5b42c182ca8d08e0cd0ca563734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 02/13] fix: saturate visitor count instead of overflowing

The 2^32nd concurrent visitor made MCaptcha::add_visitor panic in debug
builds and wrapped the count to zero, dropping all defenses, in release
builds.
---
 src/mcaptcha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..2dc73de 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -91,7 +91,7 @@ impl MCaptcha {
     /// increments the visitor count by one
     #[inline]
     pub fn add_visitor(&mut self) {
-        self.visitor_threshold += 1;
+        self.visitor_threshold = self.visitor_threshold.saturating_add(1);
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-- 
2.43.0


From b09774a46e1ccdc30084bcfebe3e27bbdfe57735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 03/13] fix: don't loosen defense while the lower level's
 threshold is exceeded

MCaptcha::add_visitor loosened defense whenever the visitor count didn't
exceed the current level's threshold. So, under a load between the
thresholds of two consecutive levels, every other visitor was handed the
difficulty factor of the lower level.
---
 src/defense.rs  | 7 +++++++
 src/mcaptcha.rs | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index 6d6e8c0..1c7382e 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -201,6 +201,13 @@ impl Defense {
         }
     }
 
+    /// Check if there is a level below the current one whose visitor threshold isn't exceeded by
+    /// the specified visitor count
+    pub(crate) fn lower_level_handles(&self, visitors: u32) -> bool {
+        self.current_visitor_threshold > 0
+            && visitors <= self.levels[self.current_visitor_threshold - 1].visitor_threshold
+    }
+
     /// Set defense to maximum level
     pub fn max_defense(&mut self) {
         self.current_visitor_threshold = self.levels.len() - 1;
diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index 2dc73de..c043106 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -95,7 +95,7 @@ impl MCaptcha {
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-        } else {
+        } else if self.defense.lower_level_handles(self.visitor_threshold) {
             self.defense.loosen_up();
         }
     }
-- 
2.43.0


From a5af8fbef898304ed25d2964b62b48391563562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 04/13] fix: expire visitors restored into a new site

When SetInternalData named a site that the embedded master didn't have,
its counter was started with the restored visitor count but the
decrement of that count was never scheduled. The site's visitor count,
and so its difficulty factor, never went down and the site was never
garbage collected.
---
 src/master/embedded/master.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..685627b 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -267,20 +267,21 @@ impl Handler<SetInternalData> for Master {
     fn handle(&mut self, mut m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
         let (tx, rx) = channel();
         for (name, mcaptcha) in m.mcaptcha.drain() {
-            let addr = self.get_site(&name);
-            let master = ctx.address();
-            let fut = async move {
-                match addr {
-                    None => {
-                        master.send(AddSite { id: name, mcaptcha }).await.unwrap();
-                    }
-                    Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
-                    }
+            let addr = match self.get_site(&name) {
+                None => {
+                    let counter: Counter = mcaptcha.clone().into();
+                    let addr = counter.start();
+                    self.add_site(addr.clone(), name);
+                    addr
                 }
+                Some(addr) => addr,
+            };
+            let fut = async move {
+                // also schedules the expiry of the visitors that are being restored
+                let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
+                // best effort basis
+                //let err: CaptchaError = e.into();
+                //let _ = tx.send(Err(err));
             }
             .into_actor(self);
             ctx.spawn(fut);
-- 
2.43.0


From 44398284b7cb463f2b1e3de8aacfdc1857edbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 05/13] fix: tolerate removal of sites during cleanup

Cleanup works on a snapshot of the sites and panicked, taking the
master actor down with it, when one of those was removed before cleanup
got to it.
---
 src/master/embedded/master.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 685627b..cc8977c 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -171,10 +171,14 @@ impl Handler<CleanUp> for Master {
         info!("init master actor cleanup up");
         let task = async move {
             for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
+                let visitor_count = match addr.send(GetCurrentVisitorCount).await {
+                    Ok(visitor_count) => visitor_count,
+                    // site was removed after cleanup was initiated
+                    Err(_) => continue,
+                };
                 println!("{}", visitor_count);
                 if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
+                    let _ = addr.send(Stop).await;
                     master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
                     println!("cleaned up");
                 }
-- 
2.43.0


From 23b9f8e6e419459b3f3e5c9bd49fe3ccbcb6dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 06/13] fix: tolerate departed requesters in RedisCache

The actor panicked, and cache with it, when the requester stopped
waiting for the response before Redis responded, which is what happens
when an HTTP client disconnects.
---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From 847c43ba7fc97523970ebf36e3ae7f0e3ed35614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 07/13] fix: report Redis failures as errors instead of
 panicking

A Redis error on storing a token or on probing for the mCaptcha module,
and a malformed reply from the module, panicked. In the first case that
took down the cache actor, so one failed Redis command was enough to
stop all further verifications.
---
 src/redis/mcaptcha_redis.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..c0c4ad0 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -69,7 +69,7 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
+        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
             if let Some(Value::Array(s)) = s.first() {
                 match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
                     Some(_) => (),
@@ -96,8 +96,7 @@ impl MCaptchaRedisConnection {
             if let Value::Array(mut val) = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
+                .await?
             {
                 if let Some(Value::Nil) = val.pop() {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
@@ -117,7 +116,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -188,7 +188,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
@@ -207,21 +207,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From 22350d10bf8d9074b3ade12b7873ed0adc3f16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 08/13] fix: look for the mCaptcha module among all Redis
 modules

Only the first module that Redis reported was checked, so a Redis
instance with any other module loaded before the mCaptcha module was
rejected.
---
 src/redis/mcaptcha_redis.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index c0c4ad0..6187b83 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -70,13 +70,9 @@ impl MCaptchaRedis {
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
         if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
-                return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
+            match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
+                Some(_) => (),
+                None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
             }
         }
 
-- 
2.43.0


From e299448d5bea36218f7d93f936eddeac409b31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 09/13] fix: don't let tokens of one captcha verify for another
 in Redis

The Redis key of a token was made by joining captcha and token with a
colon, so token "c" of captcha "a:b" and token "b:c" of captcha "a"
shared a key: the former could be used to pass verification at captcha
"a". The length of the captcha's name tells the two apart.
---
 src/redis/mcaptcha_redis.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 6187b83..4864134 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -203,8 +203,13 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        // mcaptcha:token:captcha's length:captcha:token
+        let key = format!(
+            "mcaptcha:token:{}:{}:{}",
+            msg.key.len(),
+            &msg.key,
+            &msg.token
+        );
         self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
@@ -219,8 +224,13 @@ impl MCaptchaRedisConnection {
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        // mcaptcha:token:captcha's length:captcha:token
+        let key = format!(
+            "mcaptcha:token:{}:{}:{}",
+            msg.key.len(),
+            &msg.key,
+            &msg.token
+        );
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -232,8 +242,13 @@ impl MCaptchaRedisConnection {
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        // mcaptcha:token:captcha's length:captcha:token
+        let key = format!(
+            "mcaptcha:token:{}:{}:{}",
+            msg.key.len(),
+            &msg.key,
+            &msg.token
+        );
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From f8335c792f0656d7b31b80fa4cf7c3da378a79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 10/13] fix: hand waiting work to idle runners only and forget
 served IPs

Scheduling work dispatched once to every runner, busy or not, and each
dispatch looked at one IP only, whether it had work waiting or not. So,

- work was stranded when none of the IPs looked at was the one that
  scheduled it. The runners were idle and nothing was going to wake them
  up: System::verify_pow hung, spinning, till someone else showed up
- an IP's work piled up in the queue of a runner, ahead of the work of
  other IPs
- queues of served IPs were never removed: once queue_length different
  IPs had been served, all work was refused with QueueFull forever
---
 src/queue.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..ab69b2d 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -16,6 +16,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::collections::VecDeque;
 use std::rc::Rc;
 use std::thread::{self, JoinHandle};
@@ -90,13 +91,15 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
+    // runners that are yet to finish the work that was dispatched to them
+    busy: HashSet<usize>,
+    // IPs with work waiting in queue, the one to be served next is at the front
     ips: InnerManagerIP,
-    currnet_index: usize,
     queue_length: usize,
 }
 
@@ -116,18 +119,18 @@ impl Drop for InnerManager {
 impl InnerManager {
     fn dispatch_to(&mut self, name: usize) {
         if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
+            if let Some(ip) = self.ips.pop_front() {
+                let ip_queue = self.queues.get_mut(&ip).unwrap();
+                if let Some(work) = ip_queue.pop_front() {
+                    self.busy.insert(name);
+                    r.tx.send(Message::Prove(work)).unwrap();
+                }
 
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
+                if ip_queue.is_empty() {
+                    self.queues.remove(&ip);
+                } else {
+                    self.ips.push_back(ip);
+                }
             }
         }
     }
@@ -136,7 +139,7 @@ impl InnerManager {
         for name in 0..self.runners.len() {
             if !self.runners.contains_key(&name) {
                 panic!("unable to find thread: {name}");
-            } else {
+            } else if !self.busy.contains(&name) {
                 self.dispatch_to(name)
             }
         }
@@ -148,12 +151,12 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
         InnerManager {
             queues,
             runners,
+            busy: HashSet::with_capacity(workers),
             ips,
-            currnet_index: 0,
             queue_length,
         }
     }
@@ -172,7 +175,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
@@ -185,7 +188,10 @@ impl InnerManager {
                         drop(im);
                         break;
                     }
-                    InnerManagerMessage::Dispatch(name) => im.dispatch_to(name),
+                    InnerManagerMessage::Dispatch(name) => {
+                        im.busy.remove(&name);
+                        im.dispatch_to(name)
+                    }
                     InnerManagerMessage::Schedule(job) => {
                         let res = im.schedule(job.ip, job.job);
                         let _ = job.tx.send(res);
-- 
2.43.0


From a7bcfe283a9ba3071c82406c6998301ead0e607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 11/13] hook: expose the queue to verification harnesses behind
 --cfg libmcaptcha_verif

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b85500..b138414 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,3 +223,11 @@ pub mod dev {
     pub use crate::mcaptcha;
     pub use crate::mcaptcha::{MCaptcha, MCaptchaBuilder};
 }
+
+/// private items that verification harnesses drive, compiled only with `--cfg libmcaptcha_verif`
+#[allow(unexpected_cfgs)]
+#[cfg(libmcaptcha_verif)]
+pub mod verif_hooks {
+    pub use crate::queue::{Manager, Runnable};
+    pub use crate::utils::get_random;
+}
-- 
2.43.0


From 1492f9ba114f3984cce0ad6cd4f8eca24603022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 12/13] fix: don't misread out-of-range integers from Redis

---
 src/redis/mcaptcha_redis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 4864134..b942c6e 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -197,8 +197,8 @@ impl MCaptchaRedisConnection {
 
     /// Get number of visitors of an mCaptcha object from Redis
     pub async fn get_visitors(&self, captcha: &str) -> CaptchaResult<usize> {
-        let visitors: usize = self.0.exec(redis::cmd(GET).arg(&[captcha])).await?;
-        Ok(visitors)
+        let visitors: i64 = self.0.exec(redis::cmd(GET).arg(&[captcha])).await?;
+        usize::try_from(visitors).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Add PoW Token object to Redis
@@ -231,7 +231,7 @@ impl MCaptchaRedisConnection {
             &msg.key,
             &msg.token
         );
-        let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
+        let res: i64 = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
             0 => Ok(false),
-- 
2.43.0


From a50395d55b92bf9c56cd7804d026dd47898d649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:03 +0000
Subject: [PATCH 13/13] fix: refuse an unreachable or misconfigured Redis with
 an error instead of a panic

---
 src/redis/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..61df91f 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -38,17 +38,15 @@ pub enum RedisConfig {
 
 impl RedisConfig {
     /// Create Redis connection
-    pub async fn connect(&self) -> RedisClient {
+    pub async fn connect(&self) -> CaptchaResult<RedisClient> {
         match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
-                RedisClient::Single(client)
+                let client = ConnectionManager::new(Client::open(url.as_str())?).await?;
+                Ok(RedisClient::Single(client))
             }
             Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
-                RedisClient::Cluster(cluster_client)
+                let cluster_client = ClusterClient::new(nodes.to_owned())?;
+                Ok(RedisClient::Cluster(cluster_client))
             }
         }
     }
@@ -122,7 +120,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


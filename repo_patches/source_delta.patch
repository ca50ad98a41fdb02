From f1486c4edcc87bc2fde25d9ee35ca9ff2ad62cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 01/21] fix: identifier shifts of 8 bits or more overran the
 20-byte array

---
 common/src/sha1.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/sha1.rs b/common/src/sha1.rs
index 911004c..64bb913 100644
--- a/common/src/sha1.rs
+++ b/common/src/sha1.rs
@@ -125,7 +125,7 @@ impl std::ops::ShlAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data[shift_bytes..].as_mut_ptr(),
                     self.data.as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[(SIZE - shift_bytes)..]
@@ -162,7 +162,7 @@ impl std::ops::ShrAssign<usize> for Sha1Hash {
                 std::ptr::copy(
                     self.data.as_mut_ptr(),
                     self.data[shift_bytes..].as_mut_ptr(),
-                    (SIZE - shift_bytes) * 8,
+                    SIZE - shift_bytes,
                 );
             }
             self.data[..shift_bytes].iter_mut().for_each(|v| *v = 0);
-- 
2.43.0


From e4ac4263bb4fe3c6a706e90d4457eaf2d0b0ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 02/21] fix: from_hex combined the two nibbles with and, always
 giving zero

---
 common/src/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/hex.rs b/common/src/hex.rs
index cd72731..e76042b 100644
--- a/common/src/hex.rs
+++ b/common/src/hex.rs
@@ -30,7 +30,7 @@ pub fn from_hex(s: &[u8], out: &mut [u8]) -> Option<()> {
         }
         let t2 = hex_to_int(s[i])? & 0xf;
         i += 1;
-        out[j] = t1 & t2;
+        out[j] = t1 | t2;
         j += 1;
     }
     Some(())
-- 
2.43.0


From e5116b63a4ff8048e48c8bf1d4a00b0f188a9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 03/21] fix: an empty bencode string at the end of the input
 could not be decoded

---
 bencode/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/src/reader.rs b/bencode/src/reader.rs
index 3d71786..2855e9a 100644
--- a/bencode/src/reader.rs
+++ b/bencode/src/reader.rs
@@ -53,7 +53,7 @@ impl<'a> Reader<'a> {
 
     pub fn read_exact(&mut self, len: usize) -> Result<&'a [u8]> {
         let end_index = self.curr_idx + len;
-        if self.curr_idx >= self.buf.len() || end_index > self.buf.len() {
+        if end_index > self.buf.len() {
             self.curr_idx = self.buf.len();
             return Err(Error::EOF);
         }
-- 
2.43.0


From 7fc6231353a6cf3ff1859e76012d88b0dd044a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 04/21] fix: a magnet link with a non-hex info-hash panicked
 instead of failing

---
 src/magnet_uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index cb48cbb..3ee5de3 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -64,7 +64,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut s = Sha1Hash::new();
                 match value.len() {
                     40 => {
-                        hex::from_hex(value.as_bytes(), &mut s).unwrap();
+                        hex::from_hex(value.as_bytes(), &mut s).ok_or(Error::InvalidInfoHash)?;
                     }
                     32 => {
                         let ih = str_utl::base32_decode(value.as_bytes());
-- 
2.43.0


From f28090d17ea7c1be8303af7bb1ae4c6de30adb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 05/21] fix: skipped items of a magnet file selection made the
 parser loop forever

---
 src/magnet_uri.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/magnet_uri.rs b/src/magnet_uri.rs
index 3ee5de3..5188180 100644
--- a/src/magnet_uri.rs
+++ b/src/magnet_uri.rs
@@ -90,6 +90,7 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                 let mut value = value.as_bytes();
                 while !value.is_empty() {
                     let (token, rest) = str_utl::split_string(value, b',');
+                    value = rest;
                     if token.is_empty() {
                         continue;
                     }
@@ -146,8 +147,6 @@ pub fn parse_magnet_uri(uri: &str, p: &mut TorrentParams) -> Result<()> {
                     for i in idx1..=idx2 {
                         p.file_priorities[i as usize] = DownloadPriority::DefaultPriority;
                     }
-
-                    value = rest;
                 }
             }
             "x.pe" => {
-- 
2.43.0


From 8ff64bf2834c40f1360cce9cf2fe2d1fb3fb8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 06/21] fix: announce_peer stored one torrent more than
 max_torrents

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 48371dc..8edb13c 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -343,7 +343,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         let v = if let Some(v) = self.map.get_mut(info_hash) {
             v
         } else {
-            if self.map.len() > self.settings.max_torrents {
+            if self.map.len() >= self.settings.max_torrents {
                 // we're at capacity, drop the announce
                 return;
             }
-- 
2.43.0


From c73c88f4187672c37458e9b778dea4eefabaff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 07/21] fix: the last peers of a long list could never be
 chosen for a reply

---
 dht/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 8edb13c..a6e4d54 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -305,7 +305,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
 
                 assert!(candidates >= to_pick);
                 candidates -= 1;
-                if random::random_usize(candidates + 1) > to_pick {
+                if random::random_usize(candidates + 1) >= to_pick {
                     continue;
                 }
 
-- 
2.43.0


From fbe8b2cd8da430972b31469018a82623d5908a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 08/21] fix: get_peers panicked when the reply had no list of
 values yet

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index a6e4d54..fed4981 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -288,8 +288,8 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             }
 
             let pe = peer_map
-                .get_mut("values")
-                .unwrap()
+                .entry(String::from("values"))
+                .or_insert_with(|| Value::with_list(vec![]))
                 .as_list_mut()
                 .ok_or_else(|| bencode::Error::ParseList)?;
 
-- 
2.43.0


From b6d2d0e11b41a760e91dcd80fcfdf08c5a3329ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 09/21] fix: an IPv6 endpoint announced with another scope or
 flow was stored twice

---
 dht/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index fed4981..a72ff0e 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -328,7 +328,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&requester_entry) {
-            Ok(i) => Ok(&peersv[i].addr != requester),
+            Ok(_) => Ok(false),
             Err(_) => Ok(true),
         }
     }
@@ -371,13 +371,12 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         };
 
         match peersv.binary_search(&peer) {
-            Ok(i) if &peersv[i].addr == endpoint => peersv[i] = peer,
-            v => {
+            Ok(i) => peersv[i] = peer,
+            Err(i) => {
                 if peersv.len() >= self.settings.max_peers {
                     // we're at capacity, drop the announce
                     return;
                 } else {
-                    let i = v.unwrap_or_else(|x| x);
                     peersv.insert(i, peer);
                     self.counters.peers += 1;
                 }
-- 
2.43.0


From c29eb23ddc37e113e5328d1eb0d78c2804f7a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 10/21] fix: the bucket index of equal ids underflowed

---
 dht/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/node.rs b/dht/src/node.rs
index 6972fcc..ff1eb69 100644
--- a/dht/src/node.rs
+++ b/dht/src/node.rs
@@ -20,7 +20,7 @@ pub fn distance_exp(n1: &NodeId, n2: &NodeId) -> usize {
     // TODO: it's a little bit weird to return 159 - leading zeroes. It should
     // probably be 160 - leading zeroes, but all other code in here is tuned to
     // this expectation now, and it doesn't really matter (other than complexity)
-    cmp::max(159 - distance(n1, n2).leading_zeros(), 0)
+    159_usize.saturating_sub(distance(n1, n2).leading_zeros())
 }
 
 pub fn min_distance_exp(n1: &NodeId, ids: &[NodeId]) -> usize {
-- 
2.43.0


From 4a5aea916d8d59b1fbc43dcd9e01403e6620d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 11/21] fix: the score deciding which item to evict underflowed

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index a72ff0e..5c582db 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -525,8 +525,8 @@ fn pick_least_imp<'a, T: ImmutableItem>(
         let dist_1 = crate::node::min_distance_exp(node_1, node_ids);
         let dist_2 = crate::node::min_distance_exp(node_2, node_ids);
 
-        let n1 = t1.num_announcers() / 5 - dist_1;
-        let n2 = t2.num_announcers() / 5 - dist_2;
+        let n1 = (t1.num_announcers() / 5) as isize - dist_1 as isize;
+        let n2 = (t2.num_announcers() / 5) as isize - dist_2 as isize;
         n1.cmp(&n2)
     })
 }
-- 
2.43.0


From 379309317ccb07c8bb91f228cebab25a65f4d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 12/21] fix: evicting a mutable item raised its counter, and
 counters() always panicked

---
 dht/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 5c582db..6224c36 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -481,7 +481,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
                     let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
                     let key = key.clone();
                     self.mutable_table.remove(&key);
-                    self.counters.mutable_data += 1;
+                    self.counters.mutable_data -= 1;
                 }
                 let mut item = DhtMutableItem::new(buf.to_vec());
                 item.seq = seq;
@@ -513,7 +513,7 @@ impl DhtStorage for DefaultDhtStorage<'_> {
     }
 
     fn counters(&self) -> DhtStorageCounter {
-        unimplemented!()
+        self.counters
     }
 }
 
-- 
2.43.0


From ebfa8699dfa66fa84063583816090d9987865287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 13/21] fix: putting an item into a storage configured for none
 panicked

---
 dht/src/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/storage.rs b/dht/src/storage.rs
index 6224c36..14aa192 100644
--- a/dht/src/storage.rs
+++ b/dht/src/storage.rs
@@ -405,6 +405,9 @@ impl DhtStorage for DefaultDhtStorage<'_> {
         debug_assert!(!self.node_ids.is_empty());
         let mut i = self.immutable_table.get_mut(target);
         if i.is_none() {
+            if self.settings.max_dht_items == 0 {
+                return;
+            }
             if self.immutable_table.len() >= self.settings.max_dht_items {
                 let (k, _) = pick_least_imp(&self.node_ids, &self.immutable_table).unwrap();
                 let k = k.clone();
@@ -477,6 +480,9 @@ impl DhtStorage for DefaultDhtStorage<'_> {
             None => {
                 // this is the case where we don't have an item in this slot
                 // make sure we don't add too many items
+                if self.settings.max_dht_items == 0 {
+                    return;
+                }
                 if self.mutable_table.len() >= self.settings.max_dht_items {
                     let (key, _) = pick_least_imp(&self.node_ids, &self.mutable_table).unwrap();
                     let key = key.clone();
-- 
2.43.0


From ba96d629cb0b1408cb352d105f40f27a8ad360e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 14/21] fix: reading settings panicked on an option that is not
 an integer

---
 dht/src/settings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index dba05c0..f145d5e 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -36,16 +36,16 @@ pub struct Settings {
 
 macro_rules! read_int {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() as usize;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value as usize;
         }
     };
 }
 
 macro_rules! read_bool {
     ($settings: expr, $dict: expr, $key: ident) => {
-        if let Some(value) = $dict.get(stringify!($key)) {
-            $settings.$key = value.as_int().unwrap() != 0;
+        if let Some(value) = $dict.get(stringify!($key)).and_then(|v| v.as_int()) {
+            $settings.$key = value != 0;
         }
     };
 }
-- 
2.43.0


From 6dbbc9c210a47c94dc9d24268e3034480edf16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 15/21] fix: three settings were lost when saving and reading
 back

---
 dht/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/src/settings.rs b/dht/src/settings.rs
index f145d5e..797d7f2 100644
--- a/dht/src/settings.rs
+++ b/dht/src/settings.rs
@@ -110,6 +110,9 @@ impl DhtSettings {
         set_int!(dict, block_timeout, self);
         set_int!(dict, block_ratelimit, self);
         set_int!(dict, item_lifetime, self);
+        set_int!(dict, upload_rate_limit, self);
+        set_int!(dict, sample_infohashes_interval, self);
+        set_int!(dict, max_infohashes_sample_count, self);
 
         set_bool!(dict, restrict_routing_ips, self);
         set_bool!(dict, restrict_search_ips, self);
@@ -141,6 +144,9 @@ impl DhtSettings {
         read_int!(settings, dict, block_timeout);
         read_int!(settings, dict, block_ratelimit);
         read_int!(settings, dict, item_lifetime);
+        read_int!(settings, dict, upload_rate_limit);
+        read_int!(settings, dict, sample_infohashes_interval);
+        read_int!(settings, dict, max_infohashes_sample_count);
 
         read_bool!(settings, dict, restrict_routing_ips);
         read_bool!(settings, dict, restrict_search_ips);
-- 
2.43.0


From 7e83fca33808eb173f5aefc2f2b50fc898b83787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 16/21] fix: lower_bound compared the wrong way round for
 ascending values

---
 dht/src/detail.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/src/detail.rs b/dht/src/detail.rs
index 87502f6..890ccfc 100644
--- a/dht/src/detail.rs
+++ b/dht/src/detail.rs
@@ -52,7 +52,7 @@ pub fn read_v6_socket_address<R: io::Read>(reader: &mut R) -> io::Result<SocketA
 pub fn lower_bound<T: PartialOrd>(values: &[T], value_to_check: &T) -> usize {
     let mut i = 0;
     for v in values {
-        if value_to_check > v {
+        if value_to_check <= v {
             break;
         }
         i += 1;
-- 
2.43.0


From 065b475fae1c95e5e843689f5c9aa74c6c1d863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 17/21] fix: negative sizes in a torrent file were taken as
 huge positive ones

---
 src/torrent.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 2e948b0..85efa5d 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
 
@@ -40,7 +41,7 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
-        let piece_len = info.get("piece length")?.as_int()? as usize;
+        let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
             return None;
@@ -53,7 +54,7 @@ impl Torrent {
                 // Can't have `files` key at the same time
                 return None;
             }
-            let len = len.as_int()? as usize;
+            let len = usize::try_from(len.as_int()?).ok()?;
             kind = TorrentKind::File(TorrentFile {
                 path: name.into(),
                 len,
@@ -64,7 +65,7 @@ impl Torrent {
             let mut dir = vec![];
             for file in files.as_list()? {
                 let file = file.as_dict()?;
-                let len = file.get("length")?.as_int()? as usize;
+                let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
                     path.push(segment.as_str()?);
-- 
2.43.0


From 94e05b188d43f5551e282139dcf2517923a88715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 18/21] fix: a deeply nested torrent file overflowed the stack,
 the decode limits were not applied

---
 src/torrent.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 85efa5d..0e1bc52 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,3 +1,4 @@
+use crate::info::TorrentLimits;
 use std::convert::TryFrom;
 use std::path::PathBuf;
 use url::Url;
@@ -35,7 +36,13 @@ pub struct TorrentFile {
 
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
-        let parsed = bencode::ValueRef::decode(bytes).ok()?;
+        let limits = TorrentLimits::default();
+        let parsed = bencode::ValueRef::decode_with_limits(
+            bytes,
+            Some(limits.max_decode_depth),
+            Some(limits.max_decode_tokens),
+        )
+        .ok()?;
         let dict = parsed.as_dict()?;
 
         let announce_url = dict.get("announce")?.as_str()?;
-- 
2.43.0


From 9f6420ec6594e630f5335438bef201b328a324d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 19/21] fix: a torrent file could name paths outside the
 download directory

---
 src/torrent.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/torrent.rs b/src/torrent.rs
index 0e1bc52..8a2fccf 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -1,6 +1,6 @@
 use crate::info::TorrentLimits;
 use std::convert::TryFrom;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use url::Url;
 
 #[derive(Debug)]
@@ -34,6 +34,13 @@ pub struct TorrentFile {
     len: usize,
 }
 
+/// Whether `s` names exactly one file or directory, so that joining it to a
+/// path cannot leave that path.
+fn is_plain_name(s: &str) -> bool {
+    let mut components = Path::new(s).components();
+    components.next() == Some(Component::Normal(s.as_ref())) && components.next().is_none()
+}
+
 impl Torrent {
     fn parse(bytes: &[u8]) -> Option<Self> {
         let limits = TorrentLimits::default();
@@ -48,6 +55,9 @@ impl Torrent {
         let announce_url = dict.get("announce")?.as_str()?;
         let info = dict.get("info")?.as_dict()?;
         let name = info.get("name")?.as_str()?;
+        if !is_plain_name(name) {
+            return None;
+        }
         let piece_len = usize::try_from(info.get("piece length")?.as_int()?).ok()?;
         let pieces = info.get("pieces")?.as_bytes()?;
         if pieces.len() % 20 != 0 {
@@ -75,7 +85,14 @@ impl Torrent {
                 let len = usize::try_from(file.get("length")?.as_int()?).ok()?;
                 let mut path = PathBuf::new();
                 for segment in file.get("path")?.as_list()? {
-                    path.push(segment.as_str()?);
+                    let segment = segment.as_str()?;
+                    if !is_plain_name(segment) {
+                        return None;
+                    }
+                    path.push(segment);
+                }
+                if path.as_os_str().is_empty() {
+                    return None;
                 }
                 dir.push(TorrentFile { path, len });
             }
-- 
2.43.0


From be53c8fec6de8cfb09b68aef6f78ce73c181a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 20/21] verif hooks: access to private parsers, off unless
 built with --cfg torrent_verif

---
 dht/src/msg.rs | 13 +++++++++++++
 src/lib.rs     | 13 +++++++++++++
 src/torrent.rs | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 59 insertions(+)

diff --git a/dht/src/msg.rs b/dht/src/msg.rs
index eec7ab4..f244c01 100644
--- a/dht/src/msg.rs
+++ b/dht/src/msg.rs
@@ -44,3 +44,16 @@ pub fn verify_message_impl<'a, 'b>(
     }
     Ok(())
 }
+
+/// Lets the verification harness describe a required key.
+#[cfg(torrent_verif)]
+impl<'a> KeyDesc<'a> {
+    pub fn verif_new(name: &'a str) -> Self {
+        KeyDesc {
+            name,
+            kind: 0,
+            size: 0,
+            flags: Flags::empty(),
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 0a9c04e..34f6d14 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,16 @@ mod params;
 mod status;
 mod str_utl;
 mod torrent;
+
+/// Access to private parts for the verification harness.
+#[cfg(torrent_verif)]
+pub mod verif {
+    pub use crate::download_priority::DownloadPriority;
+    pub use crate::error::{Error, Result};
+    pub use crate::magnet_uri::parse_magnet_uri;
+    pub use crate::params::TorrentParams;
+    pub use crate::torrent::Torrent;
+    pub mod str_utl {
+        pub use crate::str_utl::*;
+    }
+}
diff --git a/src/torrent.rs b/src/torrent.rs
index 8a2fccf..3810090 100644
--- a/src/torrent.rs
+++ b/src/torrent.rs
@@ -111,6 +111,39 @@ impl Torrent {
     }
 }
 
+/// What the verification harness sees of a parsed torrent.
+#[cfg(torrent_verif)]
+#[derive(Debug)]
+pub struct VerifTorrent {
+    pub announce: String,
+    pub name: Option<String>,
+    pub piece_len: usize,
+    pub pieces: Vec<u8>,
+    pub single: bool,
+    pub files: Vec<(PathBuf, usize)>,
+}
+
+#[cfg(torrent_verif)]
+impl Torrent {
+    pub fn verif_parse(bytes: &[u8]) -> Option<VerifTorrent> {
+        let t = Self::parse(bytes)?;
+        let (single, files) = match t.kind {
+            TorrentKind::File(f) => (true, vec![(f.path, f.len)]),
+            TorrentKind::Directory(d) => {
+                (false, d.into_iter().map(|f| (f.path, f.len)).collect())
+            }
+        };
+        Some(VerifTorrent {
+            announce: t.announce_url.to_string(),
+            name: t.name,
+            piece_len: t.piece_len,
+            pieces: t.pieces,
+            single,
+            files,
+        })
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 310e4c1ac7a5544bde569c3d4bb6594e3b92cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 21/21] fix: base32 padding at the start of a block was decoded
 as zero bytes

---
 src/str_utl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/str_utl.rs b/src/str_utl.rs
index 51f462b..3c609cd 100644
--- a/src/str_utl.rs
+++ b/src/str_utl.rs
@@ -164,6 +164,10 @@ pub fn base32_decode(s: &[u8]) -> Vec<u8> {
                 b'A'..=b'Z' => c - b'A',
                 b'2'..=b'7' => c - b'2' + (b'Z' - b'A') + 1,
                 b'=' => {
+                    if j == 0 {
+                        // a block holds at least one byte before the padding
+                        return vec![];
+                    }
                     if pad_start == 0 {
                         pad_start = j;
                     }
-- 
2.43.0


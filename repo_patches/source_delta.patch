From 5f521801337acd6b763408eecda2d8ae05593bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 01/17] fix: reject hyphens in MetricName::try_from_str

The Prometheus grammar, the documentation and the const constructor do
not allow them.
---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From 1244df479ad1717bad026e6dc65302fe89feed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/17] fix: count NaN observations in the +Inf bucket only

NaN is not less than or equal to any bound, so it must not be counted in
the lowest bucket.
---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..abeb53d 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -155,7 +155,7 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().le.partition_point(|le| x.is_nan() || x > *le);
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +175,7 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().le.partition_point(|le| x.is_nan() || x > *le);
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 2496d2bd944a2ed18b98e2f9b1cae17bfa276f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/17] fix: accept zero explicit histogram buckets

0..N - 1 underflowed for N = 0.
---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index abeb53d..f56c2b2 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -137,9 +137,9 @@ impl<const N: usize> Thresholds<N> {
     /// # Panics
     /// Will panic if the buckets are not strictly monotonically increasing
     pub fn with_buckets(buckets: [f64; N]) -> Self {
-        for i in 0..N - 1 {
+        for i in 1..N {
             assert!(
-                buckets[i] < buckets[i + 1],
+                buckets[i - 1] < buckets[i],
                 "consecutive histogram buckets must not decrease or be equal",
             );
         }
-- 
2.43.0


From 31ae66ad5d70986fb41e021a9f6ea2adfbc5a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 04/17] fix: report the start time of the monitored process

ProcessCollector::new read the start time of the calling process
whatever the process id it was given.
---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From 848075c58138f011703168a1872b52bc770435cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/17] fix: escape help text in the text format

An unescaped newline or backslash in a help text made the export
malformed, or added lines to it.
---
 core/src/text.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..f91b07c 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_text(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -416,6 +416,21 @@ pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<(
     b.write_all(&s.as_bytes()[i..])
 }
 
+/// Help text escapes backslashes and newlines, but not quotes
+fn write_help_text(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 struct BytesWriter {
     buf: BytesMut,
 }
-- 
2.43.0


From 4fa404f82be417780ea7e35ab588f0074b4e38fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 06/17] fix: report writer errors that happen while writing
 labels

They were dropped, so an export could succeed with bytes missing.
---
 core/src/text.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index f91b07c..8ecccd7 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -154,11 +154,20 @@ impl<W: Write> TextEncoder<W> {
 
         struct GroupVisitor<'a, W> {
             first: bool,
+            // label groups do not return what write_value does, so keep the first error
+            result: Result<(), std::io::Error>,
             writer: &'a mut W,
         }
         impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                if self.result.is_ok() {
+                    self.result = self.try_write_value(name, x);
+                }
+            }
+        }
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -181,9 +190,11 @@ impl<W: Write> TextEncoder<W> {
 
         let mut visitor = GroupVisitor {
             first: true,
+            result: Ok(()),
             writer: &mut self.writer,
         };
         labels.visit_values(&mut visitor);
+        visitor.result?;
         if !visitor.first {
             self.writer.write_all(b"}")?;
         }
-- 
2.43.0


From 19e3d9d1ac14bbf2e6db2c565ab9af3e964e478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 07/17] fix: export counters above i64::MAX as unsigned numbers

Counters and histogram counts are u64 and were exported as negative
numbers beyond 2^63.
---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..9782327 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -13,6 +13,7 @@ use super::{
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
     Int(i64),
+    UInt(u64),
     Float(f64),
 }
 
diff --git a/core/src/text.rs b/core/src/text.rs
index 8ecccd7..346c9e4 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -203,6 +203,9 @@ impl<W: Write> TextEncoder<W> {
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
+            MetricValue::UInt(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Float(x) => self
                 .writer
                 .write_all(ryu::Buffer::new().format(x).as_bytes())?,
@@ -254,7 +257,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::UInt(val),
             )?;
         }
         let count = val + inf;
@@ -263,7 +266,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::UInt(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -273,7 +276,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::UInt(count),
         )?;
         Ok(())
     }
@@ -296,7 +299,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::UInt(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From 44a8b3ab430e90d53c7d7a47c798c0b01293d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 08/17] fix: do not keep a protobuf family the writer failed to
 take

It stayed in the buffer and was merged into the next family.
---
 prometheus-proto/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..e41219b 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -48,9 +48,11 @@ impl<W: Write> ProtoEncoder<W> {
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            let result = self.writer.write_all(&self.buf[offset..]);
 
+            // whether or not it was written, this family is done
             self.buf.resize(10, 0);
+            result?;
         } else if self.buf.is_empty() {
             self.buf.resize(10, 0);
         }
-- 
2.43.0


From 2f164c890e7c41148b41088a5cf6429449db3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 09/17] fix: keep protobuf metric families apart

The name, help text and type of a family without metrics, and a help
text that no family followed, ended up in the next exported family.
---
 prometheus-proto/src/lib.rs | 67 +++++++++++++++----------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index e41219b..083ed39 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -53,18 +53,41 @@ impl<W: Write> ProtoEncoder<W> {
             // whether or not it was written, this family is done
             self.buf.resize(10, 0);
             result?;
-        } else if self.buf.is_empty() {
+        } else {
+            // a family that got no metrics is not exported
+            self.state = State::Init;
             self.buf.resize(10, 0);
         }
         debug_assert!(self.buf.len() >= 10);
         Ok(())
     }
+
+    /// Start a family of the given type, or continue the one `write_help` has started if it is the same
+    fn write_type(&mut self, name: impl MetricNameEncoder, typ: i32) -> std::io::Result<()> {
+        // optional string     name   = 1;
+        let mut encoded_name = Vec::new();
+        encode_key(1, LengthDelimited, &mut encoded_name);
+        encode_varint(name.encode_len() as u64, &mut encoded_name);
+        name.encode_utf8(&mut encoded_name)?;
+
+        if self.state != State::Help || !self.buf[10..].starts_with(&encoded_name) {
+            self.flush_buf()?;
+            self.buf.extend_from_slice(&encoded_name);
+        }
+
+        // optional MetricType type   = 3;
+        encoding::int32::encode(3, &typ, &mut self.buf);
+        self.state = State::Type;
+
+        Ok(())
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 enum State {
     Init,
     Help,
+    Type,
     Metrics,
 }
 
@@ -223,20 +246,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
-
-        // optional MetricType type   = 3;
         // COUNTER = 0;
-        encoding::int32::encode(3, &0, &mut enc.buf);
-
-        Ok(())
+        enc.write_type(name, 0)
     }
 
     fn collect_into(
@@ -278,20 +289,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
-
-        // optional MetricType type   = 3;
         // GAUGE = 1;
-        encoding::int32::encode(3, &1, &mut enc.buf);
-
-        Ok(())
+        enc.write_type(name, 1)
     }
 
     fn collect_into(
@@ -333,20 +332,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
-
-        // optional MetricType type   = 3;
         // GAUGE = 1;
-        encoding::int32::encode(3, &1, &mut enc.buf);
-
-        Ok(())
+        enc.write_type(name, 1)
     }
 
     fn collect_into(
-- 
2.43.0


From 7f8da509602f80797a755b7b4dc218ba5b9e4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 10/17] fix: let metric and label names differ only in case or
 underscores

The derives named a constant per field after the SHOUTY_SNAKE form of the
metric or label name, so two names with the same form (or one with an empty
form, or one that starts with a digit) did not compile.
---
 derive/src/label_group/to_tokens.rs  | 10 ++++------
 derive/src/metric_group/to_tokens.rs | 12 +++++-------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..319be97 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 
@@ -20,11 +19,10 @@ impl ToTokens for LabelGroup {
         let visits = fields.iter().map(|x| {
             let LabelGroupField { name, attrs, .. } = x;
             let name_string = attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());
-            let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
-            quote_spanned! { x.span =>
-                const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
-                #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);
-            }
+            quote_spanned! { x.span => {
+                const NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
+                #krate::label::LabelGroupVisitor::write_value(v, NAME, &self.#name);
+            }}
         });
 
         let label_group_set = Set(self);
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index e2a4f0c..01c8150 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::{parse_quote, parse_quote_spanned};
@@ -53,20 +52,19 @@ impl ToTokens for MetricGroup {
             match &attrs.kind {
                 MetricGroupFieldAttrsKind::Metric { rename } => {
                     let name_string = rename.as_ref().map_or_else(|| name.to_string(), |l| l.value());
-                    let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
 
                     let help = attrs.docs.as_deref().map(|doc|{
                         let doc = doc.trim();
                         quote_spanned!(x.span => {
-                            <#enc as #krate::metric::group::Encoding>::write_help(enc, #ident, #doc)?;
+                            <#enc as #krate::metric::group::Encoding>::write_help(enc, NAME, #doc)?;
                         })
                     });
 
-                    quote_spanned! { x.span =>
-                        const #ident: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
+                    quote_spanned! { x.span => {
+                        const NAME: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
                         #help
-                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;
-                    }
+                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, NAME, enc)?;
+                    }}
                 },
                 MetricGroupFieldAttrsKind::Group { namespace: None } => {
                     quote_spanned! { x.span =>
-- 
2.43.0


From f2899bca4a42b324d499c30a0d1960ae1edebe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 11/17] fix: leave r# out of names taken from raw identifiers

---
 derive/src/label_group/to_tokens.rs  | 3 ++-
 derive/src/metric_group/to_tokens.rs | 4 ++--
 derive/src/value/to_tokens.rs        | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 319be97..533e20d 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::attr::{LabelGroupFieldAttrsKind, LabelGroupFieldAttrsSortKey};
 use super::{LabelGroup, LabelGroupField};
@@ -18,7 +19,7 @@ impl ToTokens for LabelGroup {
 
         let visits = fields.iter().map(|x| {
             let LabelGroupField { name, attrs, .. } = x;
-            let name_string = attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());
+            let name_string = attrs.rename.as_ref().map_or_else(|| name.unraw().to_string(), |r| r.value());
             quote_spanned! { x.span => {
                 const NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
                 #krate::label::LabelGroupVisitor::write_value(v, NAME, &self.#name);
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index 01c8150..c42c72d 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
-use syn::{parse_quote, parse_quote_spanned};
+use syn::{ext::IdentExt, parse_quote, parse_quote_spanned};
 
 use super::{
     attr::{MetricGroupFieldAttrsInit, MetricGroupFieldAttrsKind},
@@ -51,7 +51,7 @@ impl ToTokens for MetricGroup {
             let MetricGroupField { name,ty, attrs, .. } = x;
             match &attrs.kind {
                 MetricGroupFieldAttrsKind::Metric { rename } => {
-                    let name_string = rename.as_ref().map_or_else(|| name.to_string(), |l| l.value());
+                    let name_string = rename.as_ref().map_or_else(|| name.unraw().to_string(), |l| l.value());
 
                     let help = attrs.docs.as_deref().map(|doc|{
                         let doc = doc.trim();
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 53a29fa..3e2e894 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::FixedCardinalityLabel;
 
@@ -25,7 +26,7 @@ impl ToTokens for FixedCardinalityLabel {
                 quote_spanned!(int.span() => v.write_int(#int))
             } else {
                 let name = var.attrs.rename.as_ref().map_or_else(
-                    || rename_all.apply(&var.ident.to_string()),
+                    || rename_all.apply(&var.ident.unraw().to_string()),
                     syn::LitStr::value,
                 );
                 quote_spanned!(var.span => v.write_str(#name))
-- 
2.43.0


From de9ebaf54d51dc10db6ba662349f7a2f5d062876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 12/17] fix: allow label group fields named like the derive's
 own variables

---
 derive/src/label_group/to_tokens.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 533e20d..2797e17 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::ext::IdentExt;
 
@@ -310,6 +310,11 @@ impl ToTokens for SetDecode<'_> {
             cardinalities,
         } = *self;
 
+        // hygienic, so that fields of these names do not get in the way
+        let index = Ident::new("index", Span::mixed_site());
+        let index1 = Ident::new("index1", Span::mixed_site());
+        let card = Ident::new("card", Span::mixed_site());
+
         let fixed_decodes: Vec<TokenStream> = fixed
             .iter()
             .map(|x| {
@@ -318,8 +323,8 @@ impl ToTokens for SetDecode<'_> {
                 } = x;
 
                 match &attrs.kind {
-                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, index1);),
-                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, index1);),
+                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, #index1);),
+                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, #index1);),
                     LabelGroupFieldAttrsKind::DynamicWith(_) =>unreachable!(),
                 }
             })
@@ -328,7 +333,7 @@ impl ToTokens for SetDecode<'_> {
         let dynamic_indices = dynamics
             .iter()
             .enumerate()
-            .map(|(i, _)| format_ident!("dynamic_index{i}"))
+            .map(|(i, _)| format_ident!("dynamic_index{i}", span = Span::mixed_site()))
             .collect::<Vec<_>>();
 
         let dynamic_decodes: Vec<TokenStream> = dynamics
@@ -351,15 +356,15 @@ impl ToTokens for SetDecode<'_> {
 
         tokens.extend(quote! {
             fn decode(&self, value: &Self::Unique) -> Self::Group<'_> {
-                let (index #(, #dynamic_indices)*) = *value;
+                let (#index #(, #dynamic_indices)*) = *value;
 
                 #(
-                    let card = #cardinalities;
-                    let (index, index1) = (index / card, index % card);
+                    let #card = #cardinalities;
+                    let (#index, #index1) = (#index / #card, #index % #card);
                     #fixed_decodes;
                 )*
 
-                debug_assert_eq!(index, 0);
+                debug_assert_eq!(#index, 0);
 
                 #(
                     #dynamic_decodes;
-- 
2.43.0


From 11ecea31ac7d73cd42d7bc01d0626eb9c98d73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 13/17] fix: derive on items whose identifiers come from
 macro_rules arguments

Spans of fields, variants and discriminants carried the hygiene of the
macro call that passed them in, where self, v and enc of the generated
code are not in scope.
---
 derive/src/label_group/parse.rs  | 3 ++-
 derive/src/metric_group/parse.rs | 3 ++-
 derive/src/value/parse.rs        | 3 ++-
 derive/src/value/to_tokens.rs    | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/parse.rs b/derive/src/label_group/parse.rs
index dfe9622..21d22e1 100644
--- a/derive/src/label_group/parse.rs
+++ b/derive/src/label_group/parse.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{spanned::Spanned, Data, DeriveInput, Field, Fields};
 
 use crate::Krate;
@@ -10,7 +11,7 @@ impl TryFrom<Field> for LabelGroupField {
     fn try_from(input: Field) -> syn::Result<Self> {
         let attrs = LabelGroupFieldAttrs::parse_attrs(&input.attrs)?;
         Ok(LabelGroupField {
-            span: input.span(),
+            span: input.span().resolved_at(Span::call_site()),
             vis: input.vis,
             name: input.ident.unwrap(),
             ty: input.ty,
diff --git a/derive/src/metric_group/parse.rs b/derive/src/metric_group/parse.rs
index 8464ae0..8fd833a 100644
--- a/derive/src/metric_group/parse.rs
+++ b/derive/src/metric_group/parse.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{spanned::Spanned, Data, DeriveInput, Field, Fields};
 
 use crate::Krate;
@@ -10,7 +11,7 @@ impl TryFrom<Field> for MetricGroupField {
     fn try_from(input: Field) -> syn::Result<Self> {
         let attrs = MetricGroupFieldAttrs::parse_attrs(&input.attrs)?;
         Ok(MetricGroupField {
-            span: input.span(),
+            span: input.span().resolved_at(Span::call_site()),
             name: input.ident.unwrap(),
             ty: input.ty,
             attrs,
diff --git a/derive/src/value/parse.rs b/derive/src/value/parse.rs
index a51306d..b482cb5 100644
--- a/derive/src/value/parse.rs
+++ b/derive/src/value/parse.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{spanned::Spanned, Data, DeriveInput, Fields, Lit, Variant};
 
 use crate::Krate;
@@ -21,7 +22,7 @@ impl TryFrom<Variant> for FixedCardinalityLabelVariant {
         }
 
         Ok(FixedCardinalityLabelVariant {
-            span,
+            span: span.resolved_at(Span::call_site()),
             attrs,
             ident: input.ident,
             value: input
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 3e2e894..f8b312b 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -23,7 +23,7 @@ impl ToTokens for FixedCardinalityLabel {
         let visits = variants.iter().map(|var| {
             let var_ident = &var.ident;
             let write = if let Some(int) = &var.value {
-                quote_spanned!(int.span() => v.write_int(#int))
+                quote_spanned!(int.span().resolved_at(var.span) => v.write_int(#int))
             } else {
                 let name = var.attrs.rename.as_ref().map_or_else(
                     || rename_all.apply(&var.ident.unraw().to_string()),
-- 
2.43.0


From 2dc53020d00a04f83894ad67a8cf9b9e189a7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 14/17] fix: accept suffixed integer discriminants in
 FixedCardinalityLabel

---
 derive/src/value/to_tokens.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index f8b312b..b3411ac 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
-use syn::ext::IdentExt;
+use syn::{ext::IdentExt, LitInt};
 
 use super::FixedCardinalityLabel;
 
@@ -23,6 +23,8 @@ impl ToTokens for FixedCardinalityLabel {
         let visits = variants.iter().map(|var| {
             let var_ident = &var.ident;
             let write = if let Some(int) = &var.value {
+                // without the suffix of the enum's own integer type
+                let int = LitInt::new(int.base10_digits(), int.span());
                 quote_spanned!(int.span().resolved_at(var.span) => v.write_int(#int))
             } else {
                 let name = var.attrs.rename.as_ref().map_or_else(
-- 
2.43.0


From 0666667e6cf4edcfb16b639424d4276752218ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:30 +0000
Subject: [PATCH 15/17] fix: check metric group namespaces at compile time

An invalid namespace compiled and panicked on every scrape, while invalid
metric and label names do not compile.
---
 derive/src/metric_group/to_tokens.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index c42c72d..54cbbf3 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -73,6 +73,8 @@ impl ToTokens for MetricGroup {
                 },
                 MetricGroupFieldAttrsKind::Group { namespace: Some(ns) } => {
                     quote_spanned! { x.span =>
+                        // reject invalid namespaces at compile time
+                        const _: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#ns);
                         <#krate::metric::name::WithNamespace<&#ty> as #krate::metric::group::MetricGroup<#enc>>::collect_group_into(
                             &#krate::metric::name::WithNamespace::new(#ns, &self.#name),
                             enc,
-- 
2.43.0


From bed229f9b89648a119fbea324a3b5b09f0316416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 16/17] fix: accept a trailing comma in the attributes of
 FixedCardinalityLabel

---
 derive/src/value/attr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/value/attr.rs b/derive/src/value/attr.rs
index 6a891ec..4145d24 100644
--- a/derive/src/value/attr.rs
+++ b/derive/src/value/attr.rs
@@ -33,6 +33,9 @@ impl ContainerAttrs {
         while !input.is_empty() {
             if !first {
                 input.parse::<Token![,]>()?;
+                if input.is_empty() {
+                    break;
+                }
             }
             first = false;
 
-- 
2.43.0


From fd0ae1d3c3973d01f255828ed7e55ee37c03dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 17/17] fix: a panic while a runtime is added leaves the tokio
 collector usable

---
 tokio/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index b4ddd29..eedf514 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -56,10 +56,9 @@ impl NamedRuntimesCollector {
 
     /// Inserts a `RuntimeCollector` with the given runtime.
     pub fn add(&self, rt: RuntimeMetrics, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::new(rt).with_name(name))
+        // this can panic, so it must not happen while the lock is held
+        let rt = RuntimeCollector::new(rt).with_name(name);
+        self.runtimes.write().unwrap().push(rt)
     }
 
     /// Inserts a `RuntimeCollector` for the current runtime.
@@ -71,10 +70,9 @@ impl NamedRuntimesCollector {
     /// `EnterGuard`. Calling this from within a thread created by `std::thread::spawn` (for example)
     /// will cause a panic unless that thread has an active `EnterGuard`.
     pub fn add_current(&self, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::current().with_name(name))
+        // this can panic, so it must not happen while the lock is held
+        let rt = RuntimeCollector::current().with_name(name);
+        self.runtimes.write().unwrap().push(rt)
     }
 }
 
-- 
2.43.0


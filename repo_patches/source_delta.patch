From 2a18e1f0d2169498afe4b5efcefb485b42dafd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 1/7] fix: keep ids of unknown builders out of the leaf set

Purging a known builder, and invalidating or looking up (mutably) an unknown
one, left an id in known_leaf_builder without a known_builders counterpart,
so that the next garbage_collection panicked.
---
 src/cache/internal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index f117c85..96ba2f0 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -752,6 +752,9 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 		// Invalidate dependents
 		self.invalidate_by_id(&promise.id());
 
+		// The builder is no longer known, thus it must not be considered a leaf
+		self.known_leaf_builder.remove(&bid);
+
 		#[cfg(feature = "diagnostics")]
 		self.doctor.invalidate(&BuilderHandle::new(promise));
 	}
@@ -835,8 +838,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 
 			// bid it self has been invalidated, means it has no more dependents, and thus it is a
-			// leaf now!
-			self.known_leaf_builder.insert(bid);
+			// leaf now, provided that it is known at all!
+			if self.is_builder_known_by_id(bid) {
+				self.known_leaf_builder.insert(bid);
+			}
 
 			self.artifacts.remove(&bid);
 
@@ -854,8 +859,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 		}
 
-		// Now, `builder` has no more depenencies, i.e. it is a leaf
-		self.known_leaf_builder.insert(*builder);
+		// Now, `builder` has no more depenencies, i.e. it is a leaf, if it is known
+		if self.is_builder_known_by_id(*builder) {
+			self.known_leaf_builder.insert(*builder);
+		}
 	}
 
 	/// Removes the given promise with its cached artifact from the cache and
-- 
2.43.0


From e93be37ad04c20c816ce0248397f6c5a78cfe711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 2/7] fix: do not drop the dependents map entry before
 invalidating dependents

Mutably accessing (lookup_mut, get_mut) the artifact of a builder which has
dependents panicked with 'Mapped dependency has no dependents counterpart map'.
---
 src/cache/internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index 96ba2f0..c2f167d 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -853,7 +853,9 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 	/// `BuilderId`, only invalidates dependents not the given build itself.
 	///
 	fn invalidate_dependents(&mut self, builder: &BuilderId) {
-		if let Some(set) = self.dependents.remove(builder) {
+		// Keep the mapping in place while invalidating, because each dependent
+		// will remove itself from the dependents of `builder`.
+		if let Some(set) = self.dependents.get(builder).cloned() {
 			for dep in set {
 				self.invalidate_by_id(&dep);
 			}
-- 
2.43.0


From 5d2cfa8042a0299b38d76180a96602d4cf858e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 3/7] fix: terminate the line of TextualDoc's invalidation
 events

The next event was appended to the same line.
---
 src/diagnostics/textual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 9265f75..0f7c818 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -278,13 +278,13 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 		
 		let bs = self.builder_str(builder);
 		if self.opts.show_addresses {
-			write!(self.output(),
+			writeln!(self.output(),
 				"[{:p}] {}",
 				builder.id(),
 				bs,
 			).unwrap();
 		} else {
-			write!(self.output(),
+			writeln!(self.output(),
 				"{}",
 				bs,
 			).unwrap();
-- 
2.43.0


From e6b42f3dbd77522bfd7a13f36c8f83ef062f6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 4/7] fix: escape artifact texts in the labels of VisgraphDoc

A quote or backslash in the Debug text of an artifact (e.g. any string value)
terminated the label early, resulting in an invalid Dot file.
---
 src/diagnostics/visgraph.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 91fc1d3..7e9b1b1 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -105,6 +105,14 @@ pub struct VisgraphDoc<W: Write> {
 	count: (u64, u64),
 }
 
+/// Escapes the text for use within a double-quoted Dot string.
+///
+/// Line breaks are kept as is, since those are permitted in there.
+///
+fn escape(text: &str) -> String {
+	text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 impl<W: Write> VisgraphDoc<W> {
 	/// Creates a new Visgraph Doctor
 	///
@@ -202,8 +210,8 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			count.0,
 			count.1,
 			artifact.value.can_as_ptr(),
-			artifact.type_name,
-			s
+			escape(artifact.type_name),
+			escape(&s)
 		).unwrap();
 			
 		writeln!(self.output(),
-- 
2.43.0


From c883ca3eafc63121fd230f54123e5603decd23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 5/7] fix: print plain addresses instead of wide pointers

The pointer format of a wide pointer includes its metadata in recent Rust
versions, which garbled the node names and addresses of the pre-implemented
Doctors, and the Pointer format of the dynamic Blueprints.
---
 src/blueprint.rs            | 4 ++--
 src/diagnostics/textual.rs  | 2 +-
 src/diagnostics/visgraph.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/blueprint.rs b/src/blueprint.rs
index 6cc6d08..73ba45e 100644
--- a/src/blueprint.rs
+++ b/src/blueprint.rs
@@ -507,7 +507,7 @@ cfg_if! {
 
 		impl<B: ?Sized, BCan: Can<B>> fmt::Pointer for BlueprintUnsized<B, BCan> {
 			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-				writeln!(f, "{:p}", BCan::can_as_ptr(&self.builder_canned))
+				writeln!(f, "{:p}", BCan::can_as_ptr(&self.builder_canned) as *const ())
 			}
 		}
 
@@ -771,7 +771,7 @@ impl<ArtCan, BCan, Art, Err, DynSt> fmt::Pointer for BlueprintDyn<ArtCan, BCan,
 		BCan: Can<dyn Builder<ArtCan, BCan, Artifact=Art, Err=Err, DynState=DynSt>>, {
 
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		writeln!(f, "{:p}", BCan::can_as_ptr(&self.builder_canned))
+		writeln!(f, "{:p}", BCan::can_as_ptr(&self.builder_canned) as *const ())
 	}
 }
 
diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 0f7c818..65ee7b6 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -225,7 +225,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 				count.1,
 				builder.id(),
 				bs,
-				artifact.value.can_as_ptr(),
+				artifact.value.can_as_ptr() as *const (),
 			).unwrap();
 		} else {
 			write!(self.output(),
diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 7e9b1b1..4c0711d 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -209,7 +209,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			r##"  "{0}.{1}-{2:p}" [label = "#{0}.{1} {3}{4}", shape = box]"##,
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr(),
+			artifact.value.can_as_ptr() as *const (),
 			escape(artifact.type_name),
 			escape(&s)
 		).unwrap();
@@ -219,7 +219,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			builder.id(),
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr()
+			artifact.value.can_as_ptr() as *const ()
 		).unwrap();
 		
 		self.output().flush().unwrap();
-- 
2.43.0


From f1651991790b1ce3245a7e429030244ba2643645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 6/7] fix: let the FunctionalBuilder aliases specify the state
 type

The alias' state parameter was passed on as the artifact type, so that a
FunctionalBuilder with a dynamic state could not be expressed by them.
---
 src/arc.rs   | 4 ++--
 src/boxed.rs | 4 ++--
 src/rc.rs    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index b9841fc..45e1f80 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -118,8 +118,8 @@ pub type SuperCache<T = dyn Doctor<BuilderArtifact<CanType>, CanType>> = crate::
 
 /// Functional builder wrapper.
 ///
-pub type FunctionalBuilder<F, S = ()> =
-	crate::utils::FunctionalBuilder<CanType, BuilderCan, F, S>;
+pub type FunctionalBuilder<F, T = (), S = ()> =
+	crate::utils::FunctionalBuilder<CanType, BuilderCan, F, T, S>;
 
 
 /// A simplified builder interface, intended for implementing builders.
diff --git a/src/boxed.rs b/src/boxed.rs
index 100043d..2736d50 100644
--- a/src/boxed.rs
+++ b/src/boxed.rs
@@ -92,8 +92,8 @@ pub type CacheOwned = crate::CacheOwned<CanType, BuilderCan>;
 
 /// Functional builder wrapper.
 ///
-pub type FunctionalBuilder<F, S = ()> =
-	crate::utils::FunctionalBuilder<CanType, BuilderCan, F, S>;
+pub type FunctionalBuilder<F, T = (), S = ()> =
+	crate::utils::FunctionalBuilder<CanType, BuilderCan, F, T, S>;
 
 
 
diff --git a/src/rc.rs b/src/rc.rs
index efaa94f..46e0415 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -123,8 +123,8 @@ pub type SuperCache<T = dyn Doctor<BuilderArtifact<CanType>, CanType>> = crate::
 
 /// Functional builder wrapper.
 ///
-pub type FunctionalBuilder<F, S = ()> =
-	crate::utils::FunctionalBuilder<CanType, BuilderCan, F, S>;
+pub type FunctionalBuilder<F, T = (), S = ()> =
+	crate::utils::FunctionalBuilder<CanType, BuilderCan, F, T, S>;
 
 
 /// A simplified builder interface, intended for implementing builders.
-- 
2.43.0


From be06516f73158aa55a9ec3cfa5fc481f9d8d0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:29 +0000
Subject: [PATCH 7/7] fix: compare artifact handles by address only

The comparison and the hash of a wide pointer include its metadata, but a type
may have several vtables (e.g. one per crate), so that handles of one and the
same artifact were different.
---
 src/diagnostics/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/mod.rs b/src/diagnostics/mod.rs
index b76735d..1b6d22d 100644
--- a/src/diagnostics/mod.rs
+++ b/src/diagnostics/mod.rs
@@ -160,14 +160,14 @@ impl<ArtCan> ArtifactHandle<ArtCan> {
 
 impl<ArtCan> Hash for ArtifactHandle<ArtCan> where ArtCan: CanBase {
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		(self.value.can_as_ptr()).hash(state);
+		(self.value.can_as_ptr() as *const ()).hash(state);
 	}
 }
 
 impl<ArtCan> PartialEq for ArtifactHandle<ArtCan> where ArtCan: CanBase {
 	fn eq(&self, other: &Self) -> bool {
-		(self.value.can_as_ptr())
-			.eq(&other.value.can_as_ptr())
+		(self.value.can_as_ptr() as *const ())
+			.eq(&(other.value.can_as_ptr() as *const ()))
 	}
 }
 
-- 
2.43.0


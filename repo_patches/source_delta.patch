From 4dedb0b1e0698708d4cb1fcdf4712cc3c6106f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 01/26] fix: do not panic on a transform with split or missing
 rotation

---
 src/import/converters.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..77b03bb 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -207,10 +207,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // Lottie does not render 3D layers: z is the rotation in the plane.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -238,9 +240,9 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // Lottie does not render 3D layers: z is the rotation in the plane.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
-- 
2.43.0


From 5e21cf19e54dcfed77b8cdf0cfad3bd89b3beafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 02/26] fix: do not panic on a group transform with a split
 position

---
 src/import/converters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 77b03bb..1bdf6a9 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -247,11 +247,12 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -263,7 +264,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
-- 
2.43.0


From 4d52546f6ed53630609494b7c84da31384667d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 03/26] fix: do not panic on a document with an image asset

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 1bdf6a9..6a96fdd 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -99,9 +99,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // Image layers are not rendered, so their sources are not needed.
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From 4579ba4db6573bf396e029c4ab02c62b7e99983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 04/26] fix: do not panic on the add and hard mix blend modes

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 6a96fdd..8d7ad09 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -804,8 +804,8 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        // Neither has a counterpart in peniko: blend normally.
+        Add | HardMix => return None,
     })
 }
 
-- 
2.43.0


From e4a16b5c682c8a5ea9bd2b70a0a2a06fa26a1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 05/26] fix: do not panic on a scalar keyframe without a value

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 8d7ad09..77f2abd 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -818,7 +818,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or_default();
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From 09a478136bb9511db681895f308cca1bb54c936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 06/26] fix: do not panic on a keyframe handle without exactly
 one component

---
 src/import/converters.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 77f2abd..972c815 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -359,26 +359,20 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
+fn conv_keyframe_handle(handle: &Option<KeyframeBezierHandle>) -> Option<EasingHandle> {
     let KeyframeBezierHandle {
         x_coordinate,
         y_coordinate,
-    } = handle;
+    } = handle.as_ref()?;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
-    EasingHandle { x, y }
+    Some(EasingHandle { x, y })
 }
 
 fn conv_gradient_colors(
@@ -419,8 +413,8 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: conv_keyframe_handle(&value.base.in_tangent),
+                    out_tangent: conv_keyframe_handle(&value.base.out_tangent),
                     hold,
                 });
 
@@ -717,8 +711,8 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: conv_keyframe_handle(&value.base.in_tangent),
+                    out_tangent: conv_keyframe_handle(&value.base.out_tangent),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -827,8 +821,8 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: conv_keyframe_handle(&keyframe.base.in_tangent),
+                    out_tangent: conv_keyframe_handle(&keyframe.base.out_tangent),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 84d59ab82926ebf455acb4ba9798d892189dbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 07/26] fix: do not compute NaN weights on the last keyframe

---
 src/runtime/model/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..ecefff1 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -138,7 +138,11 @@ impl Time {
             i: EasingHandle { x: t0_ix, y: t0_iy },
         };
         let hold = t0.hold;
-        let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        let t = if t1.frame > t0.frame {
+            (frame - t0.frame) / (t1.frame - t0.frame)
+        } else {
+            0.0
+        };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From adf4ffdc63bf6ba858882326662637cb7f417c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 08/26] fix: hold the offsets of gradient stops on hold
 keyframes

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..3ceedc5 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -485,11 +485,11 @@ impl ColorStops {
         let v0 = self.values.get(ix0)?;
         let v1 = self.values.get(ix1)?;
 
+        let t = if hold { 0.0 } else { t };
         let mut stops: fixed::ColorStops = Default::default();
         for i in 0..self.count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let t = if hold { 0.0 } else { t };
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 83bff5a6d68daaebee92fbac8dbad7013e84339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 09/26] fix: apply keyframe easing to animated paths

---
 src/runtime/model/animated.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 3ceedc5..d8de215 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -303,11 +303,15 @@ impl Spline {
     /// Evaluates the spline at the given frame and emits the elements
     /// to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) -> bool {
-        let Some(([ix0, ix1], t, _easing, hold)) = Time::frames_and_weight(&self.times, frame)
+        let Some(([ix0, ix1], t, easing, hold)) = Time::frames_and_weight(&self.times, frame)
         else {
             return false;
         };
-        let t = if hold { 0.0 } else { t };
+        let t = if hold {
+            0.0
+        } else {
+            0.0_f64.tween(&1.0, t, &easing)
+        };
         let (Some(from), Some(to)) = (self.values.get(ix0), self.values.get(ix1)) else {
             return false;
         };
-- 
2.43.0


From df211a0e887ed242db5dc731fbca68a52303eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 10/26] fix: do not redraw outlines emptied by a trim

---
 src/runtime/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..863451a 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -373,8 +373,10 @@ impl Batch {
 
     fn apply_trim(&mut self, trim: &fixed::Trim, geometry_start: usize) {
         let Some((first, second)) = trim.normalized() else {
+            // Later geometries may extend the emptied ranges
+            let end = self.elements.len();
             for geometry in &mut self.geometries[geometry_start..] {
-                geometry.elements = 0..0;
+                geometry.elements = end..end;
             }
             return;
         };
-- 
2.43.0


From b096460eec7441fdce9d01fb4120c3c5f99de57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 11/26] fix: do not join separate subpaths when trimming

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 863451a..5a69989 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -413,7 +413,7 @@ impl Batch {
                 let start_len = norm_start * total_length;
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
-                let mut need_move = true;
+                let mut last_point = None;
 
                 for seg in &segs {
                     let seg_len = seg.arclen(ACCURACY);
@@ -442,10 +442,10 @@ impl Batch {
 
                     if t_end > t_start + 1e-9 {
                         let sub = seg.subsegment(t_start..t_end);
-                        if need_move {
+                        if last_point != Some(seg.start()) {
                             trimmed.move_to(sub.start());
-                            need_move = false;
                         }
+                        last_point = Some(seg.end());
                         match sub {
                             PathSeg::Line(l) => trimmed.line_to(l.p1),
                             PathSeg::Quad(q) => trimmed.quad_to(q.p1, q.p2),
-- 
2.43.0


From d091aae9f3acc0dc7f297345be99bd2abf30c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 12/26] fix: apply the opacity of gradient fills and strokes

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 972c815..da1f6ce 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -498,7 +498,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -546,7 +546,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From 20f98305eec2efd4d739c564350793b1ad6ccb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 13/26] fix: apply alpha to animated gradient brushes

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index d8de215..e51a02e 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -533,7 +533,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0


From ed7485dba8e8ee13ff897969e7f1c288a6cfe9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 14/26] fix: report the layer's own index for mattes and
 precomposed layers

---
 src/runtime/render.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 5a69989..d5764c4 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -116,7 +116,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     parent_transform,
                     alpha,
                     frame,
@@ -145,7 +145,7 @@ impl Renderer {
                 if let Some(asset_layers) = animation.assets.get(name) {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_layer_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -153,7 +153,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_layer_index,
                             transform,
                             alpha,
                             frame + frame_delta,
-- 
2.43.0


From 846efa3880c5b3833b837ba4aae3169cfa20387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 15/26] fix: do not overflow the stack on cyclic asset and
 matte references

---
 src/runtime/render.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index d5764c4..be03244 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -47,6 +47,8 @@ pub trait RenderSink {
 pub struct Renderer {
     batch: Batch,
     mask_elements: Vec<PathEl>,
+    /// Addresses of the assets and mattes being rendered, to end cyclic references.
+    active_references: Vec<usize>,
 }
 
 impl Renderer {
@@ -65,6 +67,7 @@ impl Renderer {
         scene: &mut impl RenderSink,
     ) {
         self.batch.clear();
+        self.active_references.clear();
         scene.push_clip_layer(
             transform,
             &Rect::new(0.0, 0.0, animation.width as _, animation.height as _),
@@ -111,7 +114,9 @@ impl Renderer {
             // it's currently supported in vello?) Extra layer to
             // isolate blending for the mask
             scene.push_layer(Mix::Normal, 1.0, parent_transform, &full_rect);
-            if let Some(mask) = layer_set.get(mask_index) {
+            if let Some(mask) = layer_set.get(mask_index)
+                && self.begin_reference(mask)
+            {
                 self.render_layer(
                     animation,
                     layer_set,
@@ -122,6 +127,7 @@ impl Renderer {
                     frame,
                     scene,
                 );
+                self.active_references.pop();
             }
             scene.push_layer(mode, 1.0, parent_transform, &full_rect);
         }
@@ -142,7 +148,9 @@ impl Renderer {
                 //     .as_ref()
                 //     .map(|tm| tm.evaluate(frame))
                 //     .unwrap_or(frame);
-                if let Some(asset_layers) = animation.assets.get(name) {
+                if let Some(asset_layers) = animation.assets.get(name)
+                    && self.begin_reference(asset_layers)
+                {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
                     for (asset_layer_index, asset_layer) in asset_layers.iter().enumerate().rev() {
@@ -160,6 +168,7 @@ impl Renderer {
                             scene,
                         );
                     }
+                    self.active_references.pop();
                 }
             }
             Content::Shape(shapes) => {
@@ -174,6 +183,17 @@ impl Renderer {
         scene.end_layer_group();
     }
 
+    /// Notes that an asset or a matte is being rendered. Returns false if it
+    /// already is: we don't check for cycles at import time.
+    fn begin_reference<T>(&mut self, target: &T) -> bool {
+        let address = std::ptr::from_ref(target).addr();
+        if self.active_references.contains(&address) {
+            return false;
+        }
+        self.active_references.push(address);
+        true
+    }
+
     fn render_shapes(&mut self, shapes: &[Shape], transform: Affine, alpha: f64, frame: f64) {
         // Keep track of our local top of the geometry stack. Any subsequent
         // draws are bounded by this.
-- 
2.43.0


From d3cb4542b500f29cbcc09fb5b0bd39cec995e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 16/26] fix: paint each copy of a repeater once, with its own
 opacity

---
 src/runtime/render.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index be03244..b8ffdd9 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -352,16 +352,16 @@ impl Batch {
             .extend(self.geometries.drain(geometry_start..));
         self.repeat_draws.extend(self.draws.drain(draw_start..));
         // Next, repeat the geometries and apply the offset transform
-        for geometry in self.repeat_geometries.iter() {
-            for i in 0..repeater.copies {
-                let transform = repeater.transform(i);
+        for i in 0..repeater.copies {
+            let transform = repeater.transform(i);
+            for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
                 geometry.transform *= transform;
                 self.geometries.push(geometry);
             }
         }
         // Finally, repeat the draws, taking into account opacity and the
-        // modified newly repeated geometry ranges
+        // geometry range of each copy
         let start_alpha = repeater.start_opacity / 100.0;
         let end_alpha = repeater.end_opacity / 100.0;
         let delta_alpha = if repeater.copies > 1 {
@@ -377,10 +377,8 @@ impl Batch {
             }
             for mut draw in self.repeat_draws.iter().cloned() {
                 draw.alpha *= alpha;
-                let count = draw.geometry.end - draw.geometry.start;
-                draw.geometry.start =
-                    geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;
-                draw.geometry.end = draw.geometry.start + count * repeater.copies;
+                draw.geometry.start += i * self.repeat_geometries.len();
+                draw.geometry.end += i * self.repeat_geometries.len();
                 self.draws.push(draw);
             }
         }
-- 
2.43.0


From 8c969ef90f3f71473c74965876004db87b6ef260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 17/26] fix: do not draw hidden shapes

---
 src/import/converters.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index da1f6ce..62a870f 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -553,7 +553,31 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
     }
 }
 
+fn is_shape_hidden(source: &schema::shapes::AnyShape) -> bool {
+    use schema::shapes::AnyShape;
+
+    let graphic_element = match source {
+        AnyShape::Group(s) => &s.graphic_element,
+        AnyShape::Rectangle(s) => &s.shape.graphic_element,
+        AnyShape::Ellipse(s) => &s.shape.graphic_element,
+        AnyShape::Path(s) => &s.shape.graphic_element,
+        AnyShape::PolyStar(s) => &s.shape.graphic_element,
+        AnyShape::Fill(s) => &s.shape_style.graphic_element,
+        AnyShape::Stroke(s) => &s.shape_style.graphic_element,
+        AnyShape::GradientFill(s) => &s.shape_style.graphic_element,
+        AnyShape::GradientStroke(s) => &s.shape_style.graphic_element,
+        AnyShape::Trim(s) => &s.modifier.graphic_element,
+        // The other shapes are not rendered
+        _ => return false,
+    };
+    graphic_element.hidden == Some(true)
+}
+
 fn conv_shape(value: &schema::shapes::AnyShape) -> Option<crate::runtime::model::Shape> {
+    if is_shape_hidden(value) {
+        return None;
+    }
+
     match conv_draw(value) {
         Some(draw) => {
             return Some(crate::runtime::model::Shape::Draw(draw));
-- 
2.43.0


From 8848749d66dd9ddf4f0371c6df7946e592c08c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 18/26] fix: a missing scale is 100 percent

---
 src/import/converters.rs | 14 +++++++++++---
 src/import/defaults.rs   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 62a870f..16b25af 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -226,7 +228,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -264,7 +266,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position,
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From 74fdd0a0a16f8bfac354219f8ce04dc340c41b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 19/26] fix: do not merge the first shape of a group into the
 enclosing group

---
 src/runtime/render.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index b8ffdd9..97e6996 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -221,7 +221,8 @@ impl Renderer {
                     );
                 }
                 Shape::Geometry(geometry) => {
-                    self.batch.push_geometry(geometry, transform, frame);
+                    self.batch
+                        .push_geometry(geometry, transform, geometry_start, frame);
                 }
                 Shape::Draw(draw) => {
                     self.batch.push_draw(draw, alpha, geometry_start, frame);
@@ -314,12 +315,19 @@ struct Batch {
 }
 
 impl Batch {
-    fn push_geometry(&mut self, geometry: &Geometry, transform: Affine, frame: f64) {
-        // Merge with the previous geometry if possible. There are two
+    fn push_geometry(
+        &mut self,
+        geometry: &Geometry,
+        transform: Affine,
+        geometry_start: usize,
+        frame: f64,
+    ) {
+        // Merge with the previous geometry if possible. There are three
         // conditions:
         // 1. The previous geometry has not yet been referenced by a draw
-        // 2. The geometries have the same transform
-        if self.drawn_geometry < self.geometries.len()
+        // 2. The previous geometry lies within the same group
+        // 3. The geometries have the same transform
+        if self.drawn_geometry.max(geometry_start) < self.geometries.len()
             && self.geometries.last().map(|last| last.transform) == Some(transform)
         {
             geometry.evaluate(frame, &mut self.elements);
-- 
2.43.0


From 389525e6efcdf36a44f72e35033d2de472c934d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 20/26] fix: do not take layers without an index for the layer
 with index 0

---
 src/import/builders.rs   |  8 ++++----
 src/import/converters.rs | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/import/builders.rs b/src/import/builders.rs
index 1b03aab..2143274 100644
--- a/src/import/builders.rs
+++ b/src/import/builders.rs
@@ -9,7 +9,7 @@ use crate::{runtime, schema};
 use peniko::{self, BlendMode, Compose, Mix};
 
 pub struct LayerSetupParams {
-    pub layer_index: usize,
+    pub layer_index: Option<usize>,
     pub matte_mode: Option<BlendMode>,
     pub matte_layer_index: Option<usize>,
 }
@@ -93,7 +93,7 @@ pub fn setup_precomp_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -176,7 +176,7 @@ pub fn setup_shape_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -240,7 +240,7 @@ pub fn setup_layer_base(
     }
 
     LayerSetupParams {
-        layer_index: source.layer.index.unwrap_or(0),
+        layer_index: source.layer.index,
         matte_mode,
         matte_layer_index,
     }
diff --git a/src/import/converters.rs b/src/import/converters.rs
index 16b25af..c082c9a 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -30,17 +30,19 @@ fn process_layers(
 ) -> Vec<Layer> {
     idmap.clear();
 
-    let mut converted: Vec<(Layer, usize, Option<BlendMode>, Option<usize>)> = vec![];
+    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];
 
     for layer in source_layers {
         if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
             let index = converted.len();
-            idmap.insert(id, index);
+            if let Some(id) = id {
+                idmap.insert(id, index);
+            }
             converted.push((layer, id, matte_mode, matte_layer_index));
         }
     }
 
-    let matte_targets: HashMap<usize, usize> = converted
+    let matte_targets: HashMap<Option<usize>, usize> = converted
         .iter()
         .enumerate()
         .filter(|(_, (layer, _, _, _))| layer.is_mask)
@@ -139,7 +141,7 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
 
 pub fn conv_layer(
     source: &schema::layers::AnyLayer,
-) -> Option<(Layer, usize, Option<BlendMode>, Option<usize>)> {
+) -> Option<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> {
     let mut layer = Layer::default();
 
     let hidden = is_layer_hidden(source);
-- 
2.43.0


From 6e8a765329fe59ea12e4b5b1a9b7056320c8fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 21/26] fix: limit the point count of stars

---
 src/runtime/model/animated.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index e51a02e..ecf1d25 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -179,7 +179,9 @@ impl Star {
         use std::f64::consts::{FRAC_PI_2, TAU};
 
         let center = self.position.evaluate(frame);
-        let num_points = self.points.evaluate(frame).round() as usize;
+        // Clamped as in Skottie, so that absurd counts don't exhaust memory.
+        const MAX_POINTS: f64 = 100_000.0;
+        let num_points = self.points.evaluate(frame).round().clamp(0.0, MAX_POINTS) as usize;
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From 715892ccd65708566e86da256c05ea3dba7546bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 22/26] fix: do not draw stars with handles of unbounded length

---
 src/runtime/model/animated.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index ecf1d25..0b03dcc 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -176,7 +176,7 @@ impl Star {
     /// Evaluates the star or polygon at the given frame and emits the
     /// elements to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) {
-        use std::f64::consts::{FRAC_PI_2, TAU};
+        use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI, TAU};
 
         let center = self.position.evaluate(frame);
         // Clamped as in Skottie, so that absurd counts don't exhaust memory.
@@ -220,7 +220,14 @@ impl Star {
             let y = center.y + radius * current_angle.sin();
 
             let (in_pt, out_pt) = if roundness.abs() > 1e-6 {
-                let tangent_len = radius * (vertex_angle_step / 2.0).tan() * roundness * 4.0 / 3.0;
+                // The tangent is unbounded towards half a turn between vertices:
+                // use the handles of a half circle from there on.
+                let tangent_angle = if vertex_angle_step < PI {
+                    vertex_angle_step / 2.0
+                } else {
+                    FRAC_PI_4
+                };
+                let tangent_len = radius * tangent_angle.tan() * roundness * 4.0 / 3.0;
                 let perp_x = -current_angle.sin();
                 let perp_y = current_angle.cos();
                 (
-- 
2.43.0


From 73b7b0803e8681e7fbe9649b2c5db9e044a9884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 23/26] fix: negative and infinite opacities made rendering
 panic

---
 src/runtime/render.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 97e6996..b86fe40 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -504,7 +504,14 @@ impl Batch {
         for draw in self.draws.iter().rev() {
             // Some nastiness to avoid cloning the brush if unnecessary
             let modified_brush = if draw.alpha != 1.0 {
-                Some(draw.brush.clone().multiply_alpha(draw.alpha as _))
+                // Opacities may be out of range, for example by easing that
+                // overshoots; a brush accepts no negative or infinite alpha.
+                let alpha = if draw.alpha > 0.0 {
+                    (draw.alpha as f32).min(f32::MAX)
+                } else {
+                    0.0
+                };
+                Some(draw.brush.clone().multiply_alpha(alpha))
             } else {
                 None
             };
-- 
2.43.0


From fb93a508765b1efc299acb9b8b0b4228810f3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 24/26] fix: clear mask elements left by a render that a
 panicking scene cut short

---
 src/runtime/render.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index b86fe40..75bf1d7 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -66,7 +66,9 @@ impl Renderer {
         alpha: f64,
         scene: &mut impl RenderSink,
     ) {
+        // A panic in the scene may have left the previous render unfinished.
         self.batch.clear();
+        self.mask_elements.clear();
         self.active_references.clear();
         scene.push_clip_layer(
             transform,
-- 
2.43.0


From 1f388077f2a4f67f67f5bdbee74ef311de79f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 25/26] fix: Bound the number of elements of huge ellipses and
 rounded rectangles

The number of segments grows with the size over the fixed tolerance, so that
sizes a document may contain (1e300) exhausted the memory.
---
 src/runtime/model/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/mod.rs b/src/runtime/model/mod.rs
index 0dba5ba..05a2e2c 100644
--- a/src/runtime/model/mod.rs
+++ b/src/runtime/model/mod.rs
@@ -128,6 +128,17 @@ impl Default for Transform {
     }
 }
 
+/// Tolerance for turning a shape into path elements, which grows with huge shapes so that the
+/// number of elements remains bounded.
+fn tolerance(shape: &impl kurbo::Shape) -> f64 {
+    let side = shape.bounding_box().size().max_side();
+    if side.is_finite() {
+        0.1_f64.max(1e-9 * side)
+    } else {
+        f64::INFINITY
+    }
+}
+
 #[derive(Clone, Debug)]
 pub enum Geometry {
     Fixed(Vec<PathEl>),
@@ -144,10 +155,12 @@ impl Geometry {
                 path.extend_from_slice(value);
             }
             Self::Rect(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let rect = value.evaluate(frame);
+                path.extend(rect.path_elements(tolerance(&rect)));
             }
             Self::Ellipse(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let ellipse = value.evaluate(frame);
+                path.extend(ellipse.path_elements(tolerance(&ellipse)));
             }
             Self::Spline(value) => {
                 value.evaluate(frame, path);
-- 
2.43.0


From 765715556211c6d4f17c49a2068623337ebeb214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 26/26] fix: Trim huge outlines with an accuracy relative to
 their size

Searching an arc length in an outline of 1e18 or more units for a position as
exact as a tenth of a unit never ended, and outlines whose coordinates or
distances overflow took minutes.
---
 src/runtime/render.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 75bf1d7..e47de56 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -426,7 +426,15 @@ impl Batch {
                 .cloned()
                 .collect();
             let segs: Vec<PathSeg> = path.segments().collect();
-            let total_length: f64 = segs.iter().map(|s| s.arclen(ACCURACY)).sum();
+            // Finding a length as exactly as that in a huge outline does not end, and where
+            // distances overflow there are no lengths.
+            let extent = path.control_box().size().to_vec2().hypot2().sqrt();
+            let accuracy = ACCURACY.max(1e-8 * extent);
+            let total_length: f64 = if extent.is_finite() && path.is_finite() {
+                segs.iter().map(|s| s.arclen(accuracy)).sum()
+            } else {
+                0.0
+            };
 
             if total_length <= 0.0 || segs.is_empty() {
                 let pos = self.trim_elements.len();
@@ -444,7 +452,7 @@ impl Batch {
                 let mut last_point = None;
 
                 for seg in &segs {
-                    let seg_len = seg.arclen(ACCURACY);
+                    let seg_len = seg.arclen(accuracy);
                     let seg_end = current_len + seg_len;
 
                     if seg_end < start_len - 1e-9 {
@@ -456,13 +464,13 @@ impl Batch {
                     }
 
                     let t_start = if current_len < start_len {
-                        seg.inv_arclen(start_len - current_len, ACCURACY)
+                        seg.inv_arclen(start_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         0.0
                     };
                     let t_end = if seg_end > end_len {
-                        seg.inv_arclen(end_len - current_len, ACCURACY)
+                        seg.inv_arclen(end_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         1.0
-- 
2.43.0


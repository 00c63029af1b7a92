From 4a660cb70863212103dbbe709d525546ce7af12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 01/31] fix: match each end node once in TreeRouter

A node was offered the request once per branch when hyperlinks were enabled,
and the parent of a wildcard was offered paths that only the wildcard matches.
---
 src/handler/tree_router.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..97a943c 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -168,6 +168,11 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
             if environment.route_state.is_empty() {
+                //Each end node is only matched once, and not by its branches
+                if branch != Static {
+                    continue;
+                }
+
                 if !self.find_hyperlinks {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
-- 
2.43.0


From 2447649d1ac3f836660b288368d4025ded830524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 02/31] fix: try the remaining matches when a TreeRouter item
 rejects a request

The search stopped at the first matching node if it rejected the request,
unless hyperlinks were enabled.
---
 src/handler/tree_router.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 97a943c..c04bd86 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -164,6 +164,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
         let mut hyperlinks = vec![];
         let mut matches = vec![];
+        let mut found_match = false;
 
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
@@ -177,7 +178,8 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
-                        return Err(environment);
+                        found_match = true;
+                        continue;
                     } else {
                         return Ok(());
                     }
@@ -269,7 +271,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             }
         }
 
-        if matches.is_empty() {
+        if matches.is_empty() && !found_match {
             environment.response.set_status(StatusCode::NotFound);
         } else if self.find_hyperlinks {
             hyperlinks.sort();
-- 
2.43.0


From 05656403638dc503d27d75d1284c901e208fc261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 03/31] fix: restore the route state when a TreeRouter rejects
 a request

The next router would otherwise continue from wherever the search ended, with
variables from failed matches.
---
 src/handler/routing.rs     | 2 +-
 src/handler/tree_router.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handler/routing.rs b/src/handler/routing.rs
index f87b800..637488c 100644
--- a/src/handler/routing.rs
+++ b/src/handler/routing.rs
@@ -153,7 +153,7 @@ impl<'a> RouteState<'a> {
 
     ///Assign names to the saved variables and return them.
     pub fn variables(&self, names: &[MaybeUtf8Owned]) -> HashMap<MaybeUtf8Owned, MaybeUtf8Owned> {
-        let values = self.route.iter().zip(self.variables.iter()).filter_map(|(v, keep)| {
+        let values = self.route.iter().zip(self.variables.iter()).take(self.index).filter_map(|(v, keep)| {
             if let Some(index) = *keep {
                 Some((index, *v))
             } else {
diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index c04bd86..9e6ca15 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -290,7 +290,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
-
+        environment.route_state.go_to(now);
         Err(environment)
     }
 
-- 
2.43.0


From a795aa77518d919db6cff5890e8423816424c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 04/31] fix: don't panic on empty path segments in TreeRouter
 builder

Paths like `a//b` made `path` and `on_path` panic.
---
 src/handler/tree_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 9e6ca15..fe69411 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -458,7 +458,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if let Some(&b':') | Some(&b'*') = segment.get(0) {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -507,7 +507,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if let Some(&b':') | Some(&b'*') = segment.get(0) {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
-- 
2.43.0


From 636817105d098a95bdfdc4a9c4f815b578f8f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 05/31] fix: don't discard handlers that are added with
 on_route

The handler was silently dropped if the node already existed, or if the label
was empty.
---
 src/handler/tree_router.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index fe69411..157fcb0 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -590,6 +590,10 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
+            let mut new_context = context.into_owned();
+            new_context.insert(VariableNames(variables.clone().into_owned()));
+            self.node.item = T::from_handler(new_context, handler);
+
             return Builder {
                 node: self.node,
                 variables: self.variables.clone(),
@@ -605,11 +609,14 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut item = Some(T::from_handler(new_context, handler));
+
+        let node = self.node.find_or_insert_router(label, || item.take().expect("handler used twice"));
+        if let Some(item) = item {
+            node.item = item;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From bd49238ed84fe3fdff29922cee2359b4293e1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 06/31] fix: apply contexts without variable names to the items
 of a TreeRouter

---
 src/handler/tree_router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 157fcb0..56110aa 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -362,9 +362,10 @@ impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
             self.item.apply_context(context.clone());
 
             context.insert(VariableNames(variables));
+        } else {
+            self.item.apply_context(context.clone());
         }
 
-
         for (_, mut node) in &mut self.static_routes {
             node.apply_context(context.clone());
         }
-- 
2.43.0


From ed8f643b010dc1d7184f2193704c24ca94a2c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 07/31] fix: don't leak the status of a rejected match into the
 next one in TreeRouter

A handler could be run with `405 Method Not Allowed` as the initial status,
only because a more specific route didn't accept the method.
---
 src/handler/tree_router.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 56110aa..1d69e74 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -160,6 +160,7 @@ impl<T: FromHandler<H> + ApplyContext, D: AsRef<[u8]>, H> FromIterator<(Method,
 impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
         let now = environment.route_state.snapshot();
+        let status = environment.response.status();
         let mut stack = vec![(self, Wildcard, now), (self, Variable, now), (self, Static, now)];
 
         let mut hyperlinks = vec![];
@@ -175,6 +176,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                 }
 
                 if !self.find_hyperlinks {
+                    environment.response.set_status(status);
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
@@ -280,6 +282,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
             for (handler, snapshot) in matches {
                 new_environment.route_state = snapshot;
+                new_environment.response.set_status(status);
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
                 } else {
-- 
2.43.0


From 9038abcb2f6140802e4e9278df4c7105f32185c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 08/31] fix: don't panic when a filter silently aborts in
 Chunked::try_send

---
 src/response.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..f98f263 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,8 +939,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
-                _ => unreachable!()
+                _ => Ok(0)
             }
         }
     }
-- 
2.43.0


From 691251f2a640955949c5eb33c895d5088cc18d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 09/31] fix: return the number of consumed bytes from
 Write::write for Chunked

It returned the size of the filtered content, which made writers on top of it
lose or repeat data.
---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index f98f263..29a2d4f 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -982,7 +982,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //The filters may change the size, but all of `content` has been used
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From bf0460125013c35c923b80b179928f6d73fb5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 10/31] fix: don't panic when ending a Chunked that has already
 reported an error

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 29a2d4f..2d33830 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -953,7 +953,10 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "write after close")))
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0


From 760b68094f590e37258d157cea2ba2aef992fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 11/31] fix: pass trailing content through the filters that
 come after its origin

The output from `end` was paired with the filters in reverse, so it skipped
filters, or went through the filter that produced it, and aborts were ignored.
---
 src/response.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 2d33830..f0e9c5c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1203,7 +1203,8 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
+    let mut abort = None;
+    let mut otuputs: Vec<_> = filters.into_iter()
         .rev()
         .map(|filter| {
             let filter_context = FilterContext {
@@ -1213,13 +1214,28 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
 
             filter.end(filter_context)
         })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
+        .take_while(|a| match *a {
+            Action::Next(_) => true,
+            Action::SilentAbort => false,
+            Action::Abort(ref e) => {
+                abort = Some(e.clone());
+                false
+            }
+        })
         .map(Some)
         .collect();
 
+    if let Some(e) = abort {
+        return Err(Error::Filter(e))
+    }
+
+    //Pair them with their filters, where the first ones may not have been called
+    otuputs.extend((otuputs.len()..filters.len()).map(|_| None));
+    otuputs.reverse();
+
     let mut write_queue = vec![];
 
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
+    for (filter, action) in filters.into_iter().zip(otuputs) {
         let mut error = None;
 
         write_queue = write_queue.into_iter().filter_map(|action| match action {
-- 
2.43.0


From f8f40f4dd5baf466262ddc3b6e4c5257fd45a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 12/31] fix: keep the remaining content when a filter silently
 aborts some of it

The content that comes after the dropped piece was dropped as well in the
beginning of responses and in the end of sized responses.
---
 src/response.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index f0e9c5c..1895881 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -671,7 +671,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
@@ -688,7 +688,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
@@ -795,7 +795,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
-- 
2.43.0


From f289b76536a9a9ff38540efcee7d97876e91e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 13/31] fix: close the connection if required, even if a filter
 aborts

The `Connection: close` header was missing if a filter aborted in `begin`.
---
 src/response.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 1895881..8a68ebd 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -655,16 +655,17 @@ impl<'a, 'b> Response<'a, 'b> {
         } else {
             let mut buffer = vec![];
 
-            let (status, write_queue) = try!(filter_headers(
+            let header_result = filter_headers(
                 self.filters,
                 writer.status(),
                 writer.headers_mut(),
                 self.global,
                 &mut filter_storage
-            ));
+            );
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            let (status, write_queue) = try!(header_result);
             *writer.status_mut() = status;
             for action in write_queue {
                 match action {
@@ -777,16 +778,18 @@ impl<'a, 'b> Response<'a, 'b> {
         writer.headers_mut().remove::<::header::ContentLength>();
         writer.headers_mut().remove_raw("content-length");
 
-        let writer = filter_headers(
+        let header_result = filter_headers(
             self.filters,
             writer.status(),
             writer.headers_mut(),
             self.global,
             self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+        );
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+
+        let writer = header_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
             let mut writer = try!(writer.start());
 
-- 
2.43.0


From abac796493db6e58e93a11cd209226a2f51d273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 14/31] fix: don't let response filters declare the wrong
 content length

A content length from a filter was sent together with a chunked body, and the
one from a handler or filter was sent without any body if a filter aborted.
---
 src/response.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 8a68ebd..939f3d0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -665,6 +665,8 @@ impl<'a, 'b> Response<'a, 'b> {
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            //The length is not known until the whole body has been collected
+            writer.headers_mut().remove::<::header::ContentLength>();
             let (status, write_queue) = try!(header_result);
             *writer.status_mut() = status;
             for action in write_queue {
@@ -774,10 +776,6 @@ impl<'a, 'b> Response<'a, 'b> {
     pub fn into_chunked(mut self) -> Chunked<'a, 'b> {
         let mut writer = self.writer.take().expect("response used after drop");
 
-        //Make sure it's chunked
-        writer.headers_mut().remove::<::header::ContentLength>();
-        writer.headers_mut().remove_raw("content-length");
-
         let header_result = filter_headers(
             self.filters,
             writer.status(),
@@ -785,6 +783,11 @@ impl<'a, 'b> Response<'a, 'b> {
             self.global,
             self.filter_storage_mut()
         );
+
+        //Make sure it's chunked
+        writer.headers_mut().remove::<::header::ContentLength>();
+        writer.headers_mut().remove_raw("content-length");
+
         if self.force_close {
             writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
         }
-- 
2.43.0


From 771624f41dde9dac75a3429f8e3663ca62bcf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 15/31] fix: don't make it look like a panicking handler
 succeeded

An unsent response was sent as an empty `200 OK` and a chunked response was
ended as if it was complete. The filters could also panic again, and bring
down the whole process.
---
 src/response.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 939f3d0..f2f1c05 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -842,6 +842,13 @@ impl<'a, 'b> Drop for Response<'a, 'b> {
     ///Writes status code and headers and closes the connection.
     fn drop(&mut self) {
         if self.writer.is_some() {
+            if ::std::thread::panicking() {
+                //The handler didn't get to finish, so don't make it look like
+                //it did, and don't risk any more panics in the filters
+                self.set_status(StatusCode::InternalServerError);
+                self.filters = &[];
+            }
+
             self.send_sized(&[][..]);
         }
     }
@@ -1009,7 +1016,10 @@ impl<'a, 'b> Write for Chunked<'a, 'b> {
 impl<'a, 'b> Drop for Chunked<'a, 'b> {
     ///Finishes writing and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        if ::std::thread::panicking() {
+            //Leave it incomplete, since the rest of the content is missing
+            ::std::mem::forget(self.writer.take());
+        } else if self.writer.is_some() {
             self.finish();
         }
     }
-- 
2.43.0


From e965916ff12afdd86fc5f77cabacaac5b4bc43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 16/31] fix: don't count connections with panicking handlers
 forever

They were never subtracted from the number of threads in use, which would
eventually force every connection to be closed.
---
 src/server/instance.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..c21cdaf 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -134,8 +134,21 @@ struct ParsedUri {
     fragment: Option<MaybeUtf8Owned>
 }
 
+///Hyper will not report that a connection has ended if its handler panics.
+struct PanicGuard<'a>(&'a AtomicUsize);
+
+impl<'a> Drop for PanicGuard<'a> {
+    fn drop(&mut self) {
+        if ::std::thread::panicking() {
+            self.0.fetch_sub(1, Ordering::SeqCst);
+        }
+    }
+}
+
 impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
     fn handle<'a, 'b>(&'a self, request: hyper::server::request::Request<'a, 'b>, writer: hyper::server::response::Response<'a>) {
+        let _panic_guard = PanicGuard(&self.threads_in_use);
+
         let (
             request_addr,
             request_method,
-- 
2.43.0


From d1365060fb12560be09edbb0668daa521b62ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 17/31] fix: don't parse a `?` in the fragment as the beginning
 of the query

---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index c21cdaf..a651349 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -251,9 +251,11 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
+    let (path, fragment) = parse_fragment(path);
+
     match path.find('?') {
         Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+            let query = &path[index+1..];
 
             let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
             if path.is_empty() {
@@ -268,8 +270,6 @@ fn parse_path(path: &str) -> ParsedUri {
             }
         },
         None => {
-            let (path, fragment) = parse_fragment(&path);
-
             let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
             if path.is_empty() {
                 path.push(b'/');
-- 
2.43.0


From 90bcbc3971a60e44f48a0e3cfd337325998f7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 18/31] fix: parse the query of an absolute URI in the same way
 as in a path

The same query could result in different parameters, and values that aren't
UTF-8 were changed.
---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index a651349..f299eca 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -296,9 +296,9 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = url.query()
+        .map(|query| utils::parse_parameters(query.as_bytes()))
+        .unwrap_or_else(Parameters::new);
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From 8fd4a36a896b508ef8539c4bc77fe545f373db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 19/31] fix: don't make up an unnamed parameter from an empty
 query or body

---
 src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 2b01eee..ac63f82 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,6 +9,11 @@ pub fn parse_parameters(source: &[u8]) -> Parameters {
                                 .collect();
 
     for parameter in source.split(|&e| e == b'&') {
+        //There's nothing in an empty source or between two `&`
+        if parameter.is_empty() {
+            continue;
+        }
+
         let mut parts = parameter.split(|&e| e == b'=');
 
         match (parts.next(), parts.next()) {
-- 
2.43.0


From 7c43818658b3baed8bfb2dda652841f753910d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 20/31] fix: don't send directories as files

They were sent as `200 OK` with a content length, but without content.
---
 src/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index f2f1c05..57f552d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -371,6 +371,10 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
             Err(e) => return Err(FileError::Open(e, response)),
         };
 
+        if metadata.is_dir() {
+            return Err(FileError::Open(io::Error::new(io::ErrorKind::Other, "is a directory"), response));
+        }
+
         let mut writer = unsafe { response.into_raw(metadata.len()) };
         io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
     }
-- 
2.43.0


From 78d82835b07b63c52025bd59c00abd774c35c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 21/31] fix: use `video` instead of `image` as the type of
 video files

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 0efe26d2987d49373d2c71ffb200e216f8bbbb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 22/31] fix: don't reverse the order when comparing strings
 with MaybeUtf8

`"a" < MaybeUtf8::from("b")` was false.
---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From 20d230f8b4782259ec5fe42ba8737cbc36d14e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 23/31] fix: keep the headers of a recovered response when
 sending a directory

The content type had already been replaced when the response was returned.
---
 src/response.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 57f552d..0d101d9 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -344,7 +344,7 @@ impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
             .and_then(|ext| ::file::ext_to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(self) {
+        let file = match open_file(self) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, response))
         };
@@ -372,7 +372,7 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
         };
 
         if metadata.is_dir() {
-            return Err(FileError::Open(io::Error::new(io::ErrorKind::Other, "is a directory"), response));
+            return Err(FileError::Open(directory_error(), response));
         }
 
         let mut writer = unsafe { response.into_raw(metadata.len()) };
@@ -380,6 +380,20 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     }
 }
 
+fn open_file(path: &Path) -> io::Result<File> {
+    let file = try!(File::open(path));
+
+    if try!(file.metadata()).is_dir() {
+        Err(directory_error())
+    } else {
+        Ok(file)
+    }
+}
+
+fn directory_error() -> io::Error {
+    io::Error::new(io::ErrorKind::Other, "is a directory")
+}
+
 ///Helper trait for dealing with errors that may occur while sending a
 ///response. It provides a default method of handling the error.
 pub trait ResponseError {
@@ -766,7 +780,7 @@ impl<'a, 'b> Response<'a, 'b> {
             .and_then(|ext| to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(path) {
+        let file = match open_file(path) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, self))
         };
-- 
2.43.0


From 05351d668cb18da16517ea14fe1efa7d9dc51fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 24/31] fix: restore the variables of a request that a
 Variables router rejects

---
 src/handler/variables.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handler/variables.rs b/src/handler/variables.rs
index 690acdc..9ce4383 100644
--- a/src/handler/variables.rs
+++ b/src/handler/variables.rs
@@ -61,8 +61,12 @@ impl<'a, H: Build<'a>> Build<'a> for Variables<H> {
 
 impl<H: HandleRequest> HandleRequest for Variables<H> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
-        environment.context.variables = environment.route_state.variables(&self.variables).into();
-        self.handler.handle_request(environment)
+        let variables = environment.route_state.variables(&self.variables).into();
+        let old_variables = ::std::mem::replace(&mut environment.context.variables, variables);
+        self.handler.handle_request(environment).map_err(|mut environment| {
+            environment.context.variables = old_variables;
+            environment
+        })
     }
 
     fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
-- 
2.43.0


From dadb07b053946ccb12587e5887097daedf3110c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 25/31] fix: leave a chunked response incomplete if a filter
 panics at its end

---
 src/response.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 0d101d9..c15918d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -984,11 +984,13 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = match self.writer.take() {
+        let writer = match self.writer.take() {
             Some(writer) => try!(writer),
             None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "write after close")))
         };
+        let mut guard = PanicGuard(Some(writer));
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
+        let mut writer = guard.0.take().expect("the writer was just put there");
 
         for action in write_queue {
             try!{
@@ -1043,6 +1045,17 @@ impl<'a, 'b> Drop for Chunked<'a, 'b> {
     }
 }
 
+///Leaves a response incomplete if a filter panics while it's being finished.
+struct PanicGuard<T>(Option<T>);
+
+impl<T> Drop for PanicGuard<T> {
+    fn drop(&mut self) {
+        if ::std::thread::panicking() {
+            ::std::mem::forget(self.0.take());
+        }
+    }
+}
+
 ///A streaming fixed-size response.
 ///
 ///Everything is written directly to the network stream, without being
-- 
2.43.0


From d9935b40bb501abee95a6b56fc6f8cd89ba808ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 26/31] fix: send files from their beginning

The declared length is the length of the whole file, so a file handle with
another position made a response that was shorter than declared.
---
 src/response.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index c15918d..9b5156d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -32,7 +32,7 @@
 //![raw]: struct.Raw.html
 
 use std;
-use std::io::{self, Write};
+use std::io::{self, Seek, Write};
 use std::error;
 use std::borrow::Cow;
 use std::convert::From;
@@ -375,6 +375,11 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
             return Err(FileError::Open(directory_error(), response));
         }
 
+        //The declared length is the one of the whole file
+        if let Err(e) = self.seek(io::SeekFrom::Start(0)) {
+            return Err(FileError::Open(e, response));
+        }
+
         let mut writer = unsafe { response.into_raw(metadata.len()) };
         io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
     }
-- 
2.43.0


From b17854c49e39262162700bb083fc7bfa75b6555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 27/31] fix: accept any multipart boundary

The boundary utf-8 is parsed as a value of its own, and was treated as if
there was no boundary at all.
---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..cd97188 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -26,17 +26,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
@@ -60,17 +56,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
-- 
2.43.0


From ca77875f1014e53278cb043e0a1d829a0d4180ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 28/31] fix: report a broken connection when sending a file

The content of a file may still be waiting in a buffer when it has been
copied, so an error could be missed, and an empty file didn't notice
errors at all.
---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 9b5156d..a4d123c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -381,7 +381,10 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
         }
 
         let mut writer = unsafe { response.into_raw(metadata.len()) };
-        io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
+        try!(io::copy(&mut self, &mut writer).map_err(FileError::Send));
+
+        //Everything may still be waiting in a buffer
+        writer.end().map_err(FileError::Send)
     }
 }
 
-- 
2.43.0


From 8041d9ed71b4076bc08eab09c6140922abcfffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 29/31] fix: a route that has been stepped past its end is
 empty

---
 src/handler/routing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler/routing.rs b/src/handler/routing.rs
index 637488c..75ac3ee 100644
--- a/src/handler/routing.rs
+++ b/src/handler/routing.rs
@@ -183,7 +183,7 @@ impl<'a> RouteState<'a> {
 
     ///Check if there are no more segments.
     pub fn is_empty(&self) -> bool {
-        self.index == self.route.len()
+        self.index >= self.route.len()
     }
 }
 
-- 
2.43.0


From 97b0660bc71395baeeacdf487d8c403739ce6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 30/31] fix: a mocked response takes what is written to it

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index a4d123c..131cf83 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -491,7 +491,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From dc8a5a8cb35475bb761bb374be62dc1709ea6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 31/31] fix: shared and boxed handlers have the description of
 what's in them

---
 src/handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handler/mod.rs b/src/handler/mod.rs
index f8bf982..96217c6 100644
--- a/src/handler/mod.rs
+++ b/src/handler/mod.rs
@@ -180,12 +180,20 @@ impl<T: Handler> Handler for Arc<T> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 impl Handler for Box<Handler> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 ///A request environment, containing the context, response and route state.
-- 
2.43.0


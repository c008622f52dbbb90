From c56e82ed5f056203a08b38cb8b18c003b36f7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 01/26] fix: report truncated documents instead of accepting
 them

---
 instant-xml/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..168add4 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,7 +160,12 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
-            item => return item,
+            Some(item) => return Some(item),
+            // The input ended before the parent element was closed
+            None => {
+                self.done = true;
+                return Some(Err(Error::UnexpectedEndOfStream));
+            }
         };
 
         if self.context.stack.len() == self.level - 1
-- 
2.43.0


From fdc7f205d5f56c5843b510e0cdebadc8cdabf725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 02/26] fix: restore the namespace context after an empty
 element

---
 instant-xml/src/ser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..f9ec76a 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -23,6 +23,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Namespace context to restore if the element being opened turns out to be empty
+    pending: Option<(&'static str, Vec<Prefix>)>,
     state: State,
 }
 
@@ -34,6 +36,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: HashMap::new(),
             default_ns: "",
             attribute_ns: None,
+            pending: None,
             state: State::Element,
         }
     }
@@ -144,6 +147,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
+        self.pending = Some((old.default_ns, old.prefixes[..used].to_vec()));
         Ok(Element {
             prefix,
             name,
@@ -200,6 +204,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_char('>')?;
         self.attribute_ns = None;
+        self.pending = None;
         self.state = State::Element;
         Ok(())
     }
@@ -213,6 +218,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.output.write_str(" />")?;
         self.attribute_ns = None;
         self.state = State::Element;
+        if let Some((default_ns, prefixes)) = self.pending.take() {
+            self.restore(default_ns, &prefixes);
+        }
+
         Ok(())
     }
 
@@ -233,8 +242,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        let _ = mem::replace(&mut self.default_ns, old.default_ns);
-        for prefix in old.prefixes.into_iter() {
+        self.restore(old.default_ns, &old.prefixes);
+        Ok(())
+    }
+
+    /// Restore the namespace context from before an element was opened
+    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+        let _ = mem::replace(&mut self.default_ns, default_ns);
+        for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
             }
@@ -253,8 +268,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 }
             }
         }
-
-        Ok(())
     }
 
     /// Get the prefix for a namespace URI, if any
-- 
2.43.0


From e18f3a7079d0e52bd2c98c4a4b732b841c0dc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 03/26] fix: keep child elements inside the element when a
 direct field is absent

---
 instant-xml-macros/src/ser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..15da5d4 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -316,6 +316,7 @@ impl StructOutput {
             .map_err(|err| err.to_compile_error())?;
 
         let mut attrs_only = true;
+        let mut children = false;
         let mut direct = None;
         for (field, field_meta) in &fields {
             if !field_meta.attribute {
@@ -331,9 +332,16 @@ impl StructOutput {
 
             if field_meta.direct {
                 direct = Some(field.ident.as_ref().unwrap());
+            } else if !field_meta.attribute {
+                children = true;
             }
         }
 
+        // An absent direct field only makes the element empty if there are no child elements
+        if children {
+            direct = None;
+        }
+
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From e056ca8ab84917c71997d407819c16228881b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 04/26] fix: do not queue a node for an element that is already
 closed

---
 instant-xml/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 168add4..b0ede78 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -97,7 +97,10 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     where
         'cx: 'a,
     {
-        self.context.records.push_front(node);
+        if !self.done {
+            self.context.records.push_front(node);
+        }
+
         Deserializer {
             parent: self.parent,
             level: self.level,
-- 
2.43.0


From bf970f5e2f5a46d6c52aab40859e9a76067af27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 05/26] fix: borrow an empty string from an empty element

---
 instant-xml/src/de.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index b0ede78..222ac01 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -423,10 +423,10 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
         return Err(Error::DuplicateValue(field));
     }
 
-    match deserializer.take_str()? {
-        Some(value) => into.inner = Some(value),
-        None => return Ok(()),
-    };
+    into.inner = Some(match deserializer.take_str()? {
+        Some(value) => value,
+        None => "".into(),
+    });
 
     deserializer.ignore()?;
     Ok(())
@@ -444,12 +444,11 @@ pub fn borrow_cow_slice_u8<'xml>(
         return Err(Error::DuplicateValue(field));
     }
 
-    if let Some(value) = deserializer.take_str()? {
-        *into = Some(match value {
-            Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
-            Cow::Owned(v) => Cow::Owned(v.into_bytes()),
-        });
-    }
+    *into = Some(match deserializer.take_str()? {
+        Some(Cow::Borrowed(v)) => Cow::Borrowed(v.as_bytes()),
+        Some(Cow::Owned(v)) => Cow::Owned(v.into_bytes()),
+        None => Cow::Borrowed(&[]),
+    });
 
     deserializer.ignore()?;
     Ok(())
-- 
2.43.0


From 20a7237146a1fe7b31d1f1aeb702136f1cf65485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 06/26] fix: escape scalar enum names and values written via
 display_to_xml

---
 instant-xml-macros/src/ser.rs | 2 +-
 instant-xml/src/impls.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 15da5d4..e216347 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,7 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                ::instant_xml::ToXml::serialize(match self { #variants }, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..175ab40 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -131,7 +131,7 @@ pub fn display_to_xml(
     field: Option<Id<'_>>,
     serializer: &mut Serializer<'_, impl fmt::Write + ?Sized>,
 ) -> Result<(), Error> {
-    DisplayToXml(value).serialize(field, serializer)
+    DisplayToXml(&encode(&value.to_string())?).serialize(field, serializer)
 }
 
 struct DisplayToXml<'a, T: fmt::Display>(pub &'a T);
-- 
2.43.0


From 2b59748ea4473e448abd55e35ff3c00534a5834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 07/26] fix: reject character references with a sign

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 222ac01..6097bc3 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -473,6 +473,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|s| !s.starts_with('+'))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -486,6 +487,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|s| !s.starts_with('+'))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From e2bb0e0c627348294237e737ff05d6b90667ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 08/26] fix: keep text together when a comment or CDATA section
 interrupts it

---
 instant-xml/src/de.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 6097bc3..4e44677 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -185,6 +185,8 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
 struct Context<'xml> {
     parser: Tokenizer<'xml>,
+    /// Token following a text node, read to find the end of that node
+    peeked: Option<Result<Token<'xml>, xmlparser::Error>>,
     stack: Vec<Level<'xml>>,
     records: VecDeque<Node<'xml>>,
     limits: Limits,
@@ -194,6 +196,7 @@ impl<'xml> Context<'xml> {
     fn new(input: &'xml str) -> Self {
         Self {
             parser: Tokenizer::from(input),
+            peeked: None,
             stack: Vec::new(),
             records: VecDeque::new(),
             limits: Limits::default(),
@@ -226,6 +229,26 @@ impl<'xml> Context<'xml> {
         })
     }
 
+    /// Append any text following `text`, which might be interrupted by comments or CDATA sections
+    fn complete_text(&mut self, mut text: Cow<'xml, str>) -> Result<Node<'xml>, Error> {
+        loop {
+            let next = match self.parser.next() {
+                Some(Ok(Token::Text { text })) => decode(text.as_str())?,
+                Some(Ok(Token::Cdata { text, .. })) => Cow::Borrowed(text.as_str()),
+                Some(Ok(Token::Comment { .. })) => continue,
+                token => {
+                    self.peeked = token;
+                    return Ok(Node::Text(text));
+                }
+            };
+
+            match text.is_empty() {
+                true => text = next,
+                false => text.to_mut().push_str(&next),
+            }
+        }
+    }
+
     fn default_ns(&self) -> &'xml str {
         self.stack
             .iter()
@@ -261,7 +284,12 @@ impl<'xml> Iterator for Context<'xml> {
         }
 
         loop {
-            match self.parser.next()? {
+            let token = match self.peeked.take() {
+                Some(token) => token,
+                None => self.parser.next()?,
+            };
+
+            match token {
                 Ok(Token::ElementStart { prefix, local, .. }) => {
                     if self.stack.len() >= self.limits.max_levels {
                         return Some(Err(Error::Other(
@@ -393,10 +421,10 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    return Some(decode(text.as_str()).and_then(|text| self.complete_text(text)));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    return Some(self.complete_text(Cow::Borrowed(text.as_str())));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From f88145423b7530814aa1ca1bee94ad6b4e88a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 09/26] fix: report duplicate elements instead of keeping the
 last one

---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..8d4ecd3 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -196,6 +196,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -318,6 +322,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -774,6 +782,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -849,6 +861,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..b7150da 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -146,9 +146,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From 9cc5c231af4b3cc966c7d9ec350a644a74e480c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 10/26] fix: report an unknown element prefix instead of
 panicking in parent()

---
 instant-xml/src/de.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 4e44677..692b906 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -128,10 +128,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     /// Get the identifier of the parent element
     pub fn parent(&self) -> Id<'xml> {
         Id {
-            ns: match self.parent.prefix {
-                Some(ns) => self.context.lookup(ns).unwrap(),
-                None => self.context.default_ns(),
-            },
+            ns: self.parent.ns,
             name: self.parent.local,
         }
     }
@@ -320,9 +317,15 @@ impl<'xml> Iterator for Context<'xml> {
                             local: level.local,
                             prefix: level.prefix,
                             default_ns: level.default_ns,
+                            ns: "",
                         };
 
-                        return Some(Ok(Node::Open(element)));
+                        return Some(self.element_id(&element).map(|id| {
+                            Node::Open(Element {
+                                ns: id.ns,
+                                ..element
+                            })
+                        }));
                     }
                     ElementEnd::Close(prefix, v) => {
                         let Some(level) = self.stack.pop() else {
@@ -360,9 +363,15 @@ impl<'xml> Iterator for Context<'xml> {
                             local: level.local,
                             prefix: level.prefix,
                             default_ns: level.default_ns,
+                            ns: "",
                         };
 
-                        return Some(Ok(Node::Open(element)));
+                        return Some(self.element_id(&element).map(|id| {
+                            Node::Open(Element {
+                                ns: id.ns,
+                                ..element
+                            })
+                        }));
                     }
                 },
                 Ok(Token::Attribute {
@@ -643,6 +652,8 @@ pub struct Element<'xml> {
     local: &'xml str,
     default_ns: Option<&'xml str>,
     prefix: Option<&'xml str>,
+    /// Namespace resolved when the element was opened
+    ns: &'xml str,
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 15bcdca99f0abba9634824a2e4729988a8e8e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 11/26] fix: match elements in tuple structs by name and
 namespace

---
 instant-xml-macros/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 8d4ecd3..a387944 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -817,6 +817,11 @@ fn unnamed_field(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
             Kind::Element => match deserializer.next() {
                 Some(Ok(Node::Open(data))) => {
+                    let id = deserializer.element_id(&data)?;
+                    if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    }
+
                     let mut nested = deserializer.nested(data);
                     let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                     <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-- 
2.43.0


From ccbc9d5c4ad5479769a5978af0d206799825b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 12/26] fix: reject documents with content after the root
 element

---
 instant-xml/src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 692b906..fc14f3e 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -74,7 +74,19 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
         let mut value = T::Accumulator::default();
         T::deserialize(&mut value, "<root element>", self)?;
-        value.try_done("<root element>")
+        let value = value.try_done("<root element>")?;
+
+        if let Mut::Owned(_) = &self.context {
+            // Nothing but comments may follow the root element
+            self.ignore()?;
+            match self.context.next() {
+                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{node:?}"))),
+                Some(Err(e)) => return Err(e),
+                None => {}
+            }
+        }
+
+        Ok(value)
     }
 
     /// Skip all remaining nodes in the current element
-- 
2.43.0


From b9ad04abf3e269f3f8c39d0d28e3a2ae9f86bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 13/26] fix: qualify attributes in the default namespace when a
 prefix is declared

---
 instant-xml/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index f9ec76a..cf4a0df 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -167,7 +167,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
+        match ns.is_empty() || (ns == attr_ns && !self.prefixes.contains_key(ns)) {
             true => self.output.write_fmt(format_args!(" {name}=\""))?,
             false => {
                 let prefix = self
-- 
2.43.0


From 52fcdc545c01e0469e9858ef78ec02957b0559e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 14/26] fix: keep all of the text of an AnyElement with mixed
 content

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index b7150da..3a59c66 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(prev) => prev.to_mut().push_str(&text),
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From fec248f859385a4727646b3aeebbe4cfdde14ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 15/26] fix: report errors from the variants of forward enums

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index a387944..2dfa873 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -172,7 +172,7 @@ fn deserialize_forward_enum(
             quote!(if <#no_lifetime_type as FromXml>::matches(id, None) {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
-                *into = ::instant_xml::Accumulate::try_done(value, #field_str).map(#ident::#v_ident).ok();
+                *into = Some(#ident::#v_ident(::instant_xml::Accumulate::try_done(value, #field_str)?));
             }),
         );
     }
-- 
2.43.0


From 72f664d50abb346c50ea280d74179db1ed6e3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 16/26] fix: do not use a prefix that a nested element declares
 for another namespace

---
 instant-xml/src/ser.rs | 49 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index cf4a0df..7649441 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -17,6 +17,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// `ToXml` implementation. If a prefix is already defined for a given namespace, we don't
     /// update the set with the new prefix.
     prefixes: HashMap<&'static str, &'static str>,
+    /// Mappings hidden by a nested declaration of the same prefix for another namespace
+    shadowed: Vec<Shadowed>,
     default_ns: &'static str,
     /// Default namespace for attributes.
     ///
@@ -34,6 +36,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         Self {
             output,
             prefixes: HashMap::new(),
+            shadowed: Vec::new(),
             default_ns: "",
             attribute_ns: None,
             pending: None,
@@ -58,6 +61,9 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
+        if let Some(cx) = &cx {
+            self.shadow(&cx.prefixes);
+        }
 
         let (prefix, update_default_ns) =
             match (ns == self.default_ns, self.prefixes.get(ns), force_prefix) {
@@ -246,6 +252,30 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         Ok(())
     }
 
+    /// Hide mappings whose prefix is about to be declared for another namespace
+    fn shadow(&mut self, prefixes: &[Prefix]) {
+        loop {
+            let hidden = prefixes
+                .iter()
+                .filter(|new| !new.prefix.is_empty() && !self.prefixes.contains_key(new.ns))
+                .find_map(|new| {
+                    let (ns, prefix) = self.prefixes.iter().find(|(_, p)| **p == new.prefix)?;
+                    Some(Shadowed {
+                        ns,
+                        prefix,
+                        by: new.ns,
+                    })
+                });
+
+            let Some(hidden) = hidden else {
+                return;
+            };
+
+            self.prefixes.remove(hidden.ns);
+            self.shadowed.push(hidden);
+        }
+    }
+
     /// Restore the namespace context from before an element was opened
     fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
         let _ = mem::replace(&mut self.default_ns, default_ns);
@@ -256,7 +286,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
             let mut entry = match self.prefixes.entry(prefix.ns) {
                 Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => unreachable!(),
+                Entry::Vacant(_) => continue,
             };
 
             match prefix.prefix {
@@ -268,6 +298,15 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 }
             }
         }
+
+        let visible = &mut self.prefixes;
+        self.shadowed.retain(|hidden| {
+            let restore = prefixes.iter().any(|prefix| prefix.ns == hidden.by);
+            if restore {
+                visible.insert(hidden.ns, hidden.prefix);
+            }
+            !restore
+        });
     }
 
     /// Get the prefix for a namespace URI, if any
@@ -323,6 +362,14 @@ pub struct Prefix {
     pub ns: &'static str,
 }
 
+/// A prefix mapping hidden by a nested declaration
+struct Shadowed {
+    prefix: &'static str,
+    ns: &'static str,
+    /// The namespace for which the prefix has been redeclared
+    by: &'static str,
+}
+
 #[derive(Debug, Eq, PartialEq)]
 enum State {
     Attribute,
-- 
2.43.0


From 42a9e99ca0460146fbf3f07a78d8ad472c69fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 17/26] fix: restore hidden prefixes when the declaration
 hiding them goes out of scope

---
 instant-xml/src/ser.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 7649441..000a2c0 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -279,6 +279,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
     /// Restore the namespace context from before an element was opened
     fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
         let _ = mem::replace(&mut self.default_ns, default_ns);
+        let mut restored = Vec::new();
         for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
@@ -289,24 +290,24 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 Entry::Vacant(_) => continue,
             };
 
-            match prefix.prefix {
-                "" => {
-                    entry.remove();
-                }
-                prev => {
-                    let _ = mem::replace(entry.get_mut(), prev);
-                }
+            let declared = match prefix.prefix {
+                "" => entry.remove(),
+                prev => mem::replace(entry.get_mut(), prev),
+            };
+
+            // The most recent declaration is the one going out of scope
+            let hidden = self
+                .shadowed
+                .iter()
+                .rposition(|hidden| hidden.by == prefix.ns && hidden.prefix == declared);
+            if let Some(index) = hidden {
+                restored.push(self.shadowed.remove(index));
             }
         }
 
-        let visible = &mut self.prefixes;
-        self.shadowed.retain(|hidden| {
-            let restore = prefixes.iter().any(|prefix| prefix.ns == hidden.by);
-            if restore {
-                visible.insert(hidden.ns, hidden.prefix);
-            }
-            !restore
-        });
+        for hidden in restored {
+            self.prefixes.insert(hidden.ns, hidden.prefix);
+        }
     }
 
     /// Get the prefix for a namespace URI, if any
-- 
2.43.0


From 0bd63a1b45b063ab7d42c1c36ac1afbecd9d6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 18/26] fix: report duplicate unit elements

---
 instant-xml/src/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 175ab40..dc4aaa0 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -817,9 +817,13 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
+        field: &'static str,
         _: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0


From 6f0982fbd87d4bc8566c8acd79734f90cdf3a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:46 +0000
Subject: [PATCH 19/26] fix: match attributes by their own name, not by their
 type's namespace

---
 instant-xml-macros/src/de.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 2dfa873..3b0cd45 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -591,13 +591,17 @@ fn named_field<'a>(
         if !tokens.branches.is_empty() {
             tokens.branches.extend(quote!(else));
         }
-        tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
-        ));
-
         tokens.branches.extend(match field_meta.attribute {
-            true => quote!({ __Attributes::#enum_name }),
-            false => quote!({ __Elements::#enum_name }),
+            // Attributes are named by the field alone: a namespace that the type declares
+            // for its elements does not apply.
+            true => quote!(
+                if id == (Id { ns: #ns, name: #field_tag }) { __Attributes::#enum_name }
+            ),
+            false => quote!(
+                if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag })) {
+                    __Elements::#enum_name
+                }
+            ),
         });
     }
 
-- 
2.43.0


From 60998e98571bfb3795280f87cf824f688a255724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 20/26] fix: drop the r# of raw identifiers from element names
 and enum values

---
 instant-xml-macros/src/case.rs | 6 +++++-
 instant-xml-macros/src/lib.rs  | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..f4165c3 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -66,7 +66,11 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let mut variant = ident.to_string();
+        if variant.starts_with("r#") {
+            variant = variant[2..].to_string();
+        }
+
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0


From 2552e9e10aaf37004407bd1ed3c9c27d800ebe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 21/26] fix: skip attributes and white space before elements in
 tuple structs

---
 instant-xml-macros/src/de.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 3b0cd45..0e025c4 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -819,22 +819,28 @@ fn unnamed_field(
     let field_str = format!("{type_name}::{index}");
     declare_values.extend(quote!(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => match deserializer.next() {
-                Some(Ok(Node::Open(data))) => {
-                    let id = deserializer.element_id(&data)?;
-                    if !<#no_lifetime_type as FromXml>::matches(id, None) {
-                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
-                    }
+            Kind::Element => loop {
+                match deserializer.next() {
+                    Some(Ok(Node::Open(data))) => {
+                        let id = deserializer.element_id(&data)?;
+                        if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                            return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                        }
 
-                    let mut nested = deserializer.nested(data);
-                    let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-                    nested.ignore()?;
-                    value
+                        let mut nested = deserializer.nested(data);
+                        let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
+                        <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
+                        nested.ignore()?;
+                        break value;
+                    }
+                    // Attributes and white space before the element carry no value
+                    Some(Ok(Node::Attribute(_))) => continue,
+                    Some(Ok(Node::Text(text)))
+                        if text.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) => continue,
+                    Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                    Some(Err(e)) => return Err(e),
+                    None => return Err(Error::MissingValue(#field_str)),
                 }
-                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
-                Some(Err(e)) => return Err(e),
-                None => return Err(Error::MissingValue(#field_str)),
             }
             Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-- 
2.43.0


From 49429a1037a794186ff77281e3cc68612f2441c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 22/26] fix: read empty text before an element in tuple structs

---
 instant-xml-macros/src/de.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 0e025c4..a85d3f6 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -844,6 +844,18 @@ fn unnamed_field(
             }
             Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
+                match deserializer.next() {
+                    // Empty text is written as nothing, leaving the following element
+                    Some(Ok(node @ Node::Open(_))) => {
+                        deserializer.for_node(node);
+                        deserializer.for_node(Node::Text("".into()));
+                    }
+                    Some(Ok(node)) => {
+                        deserializer.for_node(node);
+                    }
+                    Some(Err(e)) => return Err(e),
+                    None => {}
+                }
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
                 value
             }
-- 
2.43.0


From 826dc78409b96f6f19174be487fb5fc4e9464d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 23/26] fix: ask wrapped values whether they are present

---
 instant-xml/src/impls.rs | 9 ++++++++-
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index dc4aaa0..af181fb 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -513,7 +513,10 @@ impl<T: ToXml> ToXml for Option<T> {
     }
 
     fn present(&self) -> bool {
-        self.is_some()
+        match self {
+            Some(v) => v.present(),
+            None => false,
+        }
     }
 }
 
@@ -525,6 +528,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From 5cd822bf434d58bfc4f971fd938bf7162541998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 24/26] fix: accumulate boxed values as the values they hold

---
 instant-xml/src/impls.rs | 31 ++++++++++++++++++++++---------
 instant-xml/src/lib.rs   |  2 +-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index af181fb..afed88c 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -545,19 +545,32 @@ impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
         field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
-        if into.is_some() {
-            return Err(Error::DuplicateValue(field));
-        }
+        T::deserialize(&mut into.value, field, deserializer)
+    }
 
-        let mut value = T::Accumulator::default();
-        T::deserialize(&mut value, field, deserializer)?;
-        *into = Some(Self::new(value.try_done(field)?));
+    type Accumulator = BoxAccumulator<T, T::Accumulator>;
+    const KIND: Kind = T::KIND;
+}
 
-        Ok(())
+/// Accumulator for deserializing `Box<T>` values
+pub struct BoxAccumulator<T, A: Accumulate<T>> {
+    value: A,
+    marker: PhantomData<T>,
+}
+
+impl<T, A: Accumulate<T>> Default for BoxAccumulator<T, A> {
+    fn default() -> Self {
+        Self {
+            value: A::default(),
+            marker: PhantomData,
+        }
     }
+}
 
-    type Accumulator = Option<Self>;
-    const KIND: Kind = T::KIND;
+impl<T, A: Accumulate<T>> Accumulate<Box<T>> for BoxAccumulator<T, A> {
+    fn try_done(self, field: &'static str) -> Result<Box<T>, Error> {
+        Ok(Box::new(self.value.try_done(field)?))
+    }
 }
 
 fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e672ff0..f0913a6 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -338,7 +338,7 @@ pub use macros::{FromXml, ToXml};
 pub mod de;
 mod impls;
 pub use de::Deserializer;
-pub use impls::{display_to_xml, from_xml_str, OptionAccumulator};
+pub use impls::{display_to_xml, from_xml_str, BoxAccumulator, OptionAccumulator};
 pub mod ser;
 pub use ser::Serializer;
 mod any_element;
-- 
2.43.0


From 2d9f1b66c824fd65385112eaf4a724dd83de64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 25/26] fix: reject elements after text inside an attribute
 value

---
 instant-xml/src/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 000a2c0..cc57d72 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -198,7 +198,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From 64d86fde0df6ade2780ad1eb2fb7bab08f3064d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 26/26] fix: read scalar fields of transparent structs

---
 instant-xml-macros/src/de.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index a85d3f6..0c93e0e 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -453,8 +453,10 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let (ns, tag) = (data.ns, data.tag);
+        let field_id = quote!(Some(::instant_xml::Id { ns: #ns, name: #tag }));
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, #field_id)
         ));
 
         let field_name = &field.ident;
@@ -470,12 +472,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -717,6 +719,8 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        ns,
+        tag: field_tag,
         no_lifetime_type,
         deserialize_with,
     })
@@ -724,6 +728,8 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    ns: TokenStream,
+    tag: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From 940dec7e21ee3aadf30a6edb71363882ef6e7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 01/58] fix: pop the element stack at end-tags, and reject
 mismatched end-tags

Namespace declarations leaked from an element to its following siblings,
and '<a><b></a></b>' was accepted.
---
 relaxng-validator/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 05c1bbf..2ed5ce4 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -688,7 +688,12 @@ impl<'a> Validator<'a> {
                     ElementEnd::Open => {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
-                    ElementEnd::Close(_, _) => {
+                    ElementEnd::Close(prefix, local) => {
+                        match self.stack.pop() {
+                            Some(open) if open.is_named(prefix, local) => {}
+                            // the end-tag does not match the corresponding start-tag
+                            _ => return Err(ValidatorError::NotAllowed(evt)),
+                        }
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
@@ -708,9 +713,10 @@ impl<'a> Validator<'a> {
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
-                        let next_id =
-                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
-                        let pat = self.schema.patt(next_id);
+                        let result =
+                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat);
+                        self.stack.pop();
+                        let pat = self.schema.patt(result?);
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
@@ -1584,6 +1590,9 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn pop(&mut self) -> Option<ElementState<'a>> {
+        self.elements.pop()
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
@@ -1661,6 +1670,9 @@ struct ElementState<'a> {
 }
 
 impl<'a> ElementState<'a> {
+    fn is_named(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
+        self.prefix.as_str() == prefix.as_str() && self.local.as_str() == local.as_str()
+    }
     fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
         self.namespaces
             .iter()
-- 
2.43.0


From 951abd25021331588b22e79596ef3ef4c00d2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 02/58] fix: report an error for documents that end before
 their root element does

A truncated (or empty) document was reported as valid.
---
 relaxng-validator/src/lib.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 2ed5ce4..a2bf6e3 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -526,6 +526,8 @@ pub struct Validator<'a> {
     last_was_start_element: bool,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
+    seen_root: bool,
+    finished: bool,
 }
 
 impl<'a> Validator<'a> {
@@ -551,6 +553,8 @@ impl<'a> Validator<'a> {
             last_was_start_element: false,
             stack: ElementStack::default(),
             entity_definitions,
+            seen_root: false,
+            finished: false,
         }
     }
     fn compile(s: &Schema, p: &model::Pattern) -> PatId {
@@ -616,9 +620,29 @@ impl<'a> Validator<'a> {
 
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
-            Some(Ok(evt)) => Some(self.validate(evt)),
-            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),
-            None => None,
+            Some(Ok(evt)) => {
+                if let Token::ElementStart { .. } = evt {
+                    self.seen_root = true;
+                }
+                Some(self.validate(evt))
+            }
+            Some(Err(err)) => {
+                self.finished = true;
+                Some(Err(ValidatorError::Xml(err)))
+            }
+            None if self.finished => None,
+            None => {
+                self.finished = true;
+                if self.seen_root && self.stack.is_empty() {
+                    None
+                } else {
+                    // the document ended before the root element did
+                    Some(Err(ValidatorError::Xml(xmlparser::Error::InvalidElement(
+                        xmlparser::StreamError::UnexpectedEndOfStream,
+                        self.tokenizer.stream().gen_text_pos(),
+                    ))))
+                }
+            }
         }
     }
 
@@ -1590,6 +1614,9 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn is_empty(&self) -> bool {
+        self.elements.is_empty()
+    }
     fn pop(&mut self) -> Option<ElementState<'a>> {
         self.elements.pop()
     }
-- 
2.43.0


From 94db90b072fcb31ee59c04f37734e98a23524a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 03/58] fix: apply the default namespace to elements, and
 predeclare the xml prefix

Documents using xmlns="..." had their elements treated as being in no
namespace, and xml:lang etc. were reported as an undefined prefix.
---
 relaxng-validator/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index a2bf6e3..5f86fb9 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1580,6 +1580,8 @@ fn is_whitespace_str(s: &str) -> bool {
     s.chars().all(is_whitespace_char)
 }
 
+const XML_NAMESPACE_URI: &str = "http://www.w3.org/XML/1998/namespace";
+
 #[derive(Default)]
 struct ElementStack<'a> {
     elements: Vec<ElementState<'a>>,
@@ -1591,6 +1593,10 @@ impl<'a> ElementStack<'a> {
             .iter()
             .rev()
             .find_map(|elem| elem.lookup_namespace_uri(prefix))
+            .or_else(|| {
+                // the 'xml' prefix never needs to be declared
+                (prefix == "xml").then(|| StrSpan::from(XML_NAMESPACE_URI))
+            })
     }
 
     fn try_lookup_namespace_uri(
@@ -1598,7 +1604,8 @@ impl<'a> ElementStack<'a> {
         prefix: StrSpan<'a>,
     ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
-            Ok(None)
+            // the default namespace, unless there is none, or it's been undeclared by xmlns=""
+            Ok(self.lookup_namespace_uri("").filter(|ns| !ns.is_empty()))
         } else {
             Ok(Some(self.lookup_namespace_uri(&prefix).ok_or(
                 ValidatorError::UndefinedNamespacePrefix { prefix },
-- 
2.43.0


From 6a69d63f70cc2b31ac9606eb5c4972ed9cac3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 04/58] fix: expand references properly in text and attribute
 values

References in attribute values were not expanded at all. In text, entities
whose replacement has the length of the whole text (or is empty) were passed
through unexpanded, nested references and character references in entity
values were not expanded, the last of several declarations won, an
unterminated trailing '&' was accepted, as were references to characters not
allowed in XML.
---
 relaxng-validator/src/lib.rs | 340 +++++++++++++++++++++++------------
 1 file changed, 224 insertions(+), 116 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 5f86fb9..b9de5c9 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -464,9 +464,9 @@ impl Schema {
     }
 }
 
-fn is_ns_match(namespace_uri: &str, target_namespace: Option<&StrSpan>) -> bool {
+fn is_ns_match(namespace_uri: &str, target_namespace: Option<&str>) -> bool {
     if let Some(target_namespace) = target_namespace {
-        target_namespace.as_str() == namespace_uri
+        target_namespace == namespace_uri
     } else {
         namespace_uri.is_empty()
     }
@@ -477,9 +477,8 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
             namespace_uri,
             name,
         } => {
-            if let Some(ref target_namespace) = target_name.namespace_uri {
-                target_namespace.as_str() == namespace_uri
-                    && target_name.local_name.as_str() == name
+            if let Some(target_namespace) = target_name.namespace_uri {
+                target_namespace == namespace_uri && target_name.local_name.as_str() == name
             } else {
                 namespace_uri.is_empty() && target_name.local_name.as_str() == name
             }
@@ -488,7 +487,7 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
             namespace_uri,
             except,
         } => {
-            if is_ns_match(namespace_uri, target_name.namespace_uri.as_ref()) {
+            if is_ns_match(namespace_uri, target_name.namespace_uri) {
                 if let Some(except_nameclass) = except {
                     !contains(except_nameclass, target_name)
                 } else {
@@ -508,15 +507,14 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
 
 #[derive(Copy, Clone, Debug)]
 struct QualifiedName<'a> {
-    namespace_uri: Option<StrSpan<'a>>,
+    namespace_uri: Option<&'a str>,
     local_name: StrSpan<'a>,
 }
 
 #[derive(Copy, Clone, Debug)]
 struct Attr<'a> {
     name: QualifiedName<'a>,
-    value: StrSpan<'a>,
-    span: StrSpan<'a>,
+    value: &'a str,
 }
 
 pub struct Validator<'a> {
@@ -525,7 +523,7 @@ pub struct Validator<'a> {
     current_step: PatId,
     last_was_start_element: bool,
     stack: ElementStack<'a>,
-    entity_definitions: HashMap<String, String>,
+    entities: EntityDefinitions,
     seen_root: bool,
     finished: bool,
 }
@@ -540,19 +538,13 @@ impl<'a> Validator<'a> {
             &schema,
             Rc::as_ref(&model).borrow().as_ref().unwrap().pattern(),
         );
-        let mut entity_definitions = HashMap::default();
-        entity_definitions.insert("lt".to_string(), "<".to_string());
-        entity_definitions.insert("gt".to_string(), ">".to_string());
-        entity_definitions.insert("amp".to_string(), "&".to_string());
-        entity_definitions.insert("apos".to_string(), "'".to_string());
-        entity_definitions.insert("quot".to_string(), "\"".to_string());
         Validator {
             schema,
             tokenizer,
             current_step: start,
             last_was_start_element: false,
             stack: ElementStack::default(),
-            entity_definitions,
+            entities: EntityDefinitions::default(),
             seen_root: false,
             finished: false,
         }
@@ -703,7 +695,10 @@ impl<'a> Validator<'a> {
                 value,
                 span,
             } => {
-                self.stack.add_attr(prefix, local, value, span);
+                let mut decoded = String::new();
+                self.entities
+                    .decode(value, TextKind::AttributeValue, &mut decoded)?;
+                self.stack.add_attr(prefix, local, value, decoded, span);
                 // does not change current_step state
                 return Ok(());
             }
@@ -763,47 +758,9 @@ impl<'a> Validator<'a> {
             }
             Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
             Token::Text { text } => {
-                let mut buffer = String::new();
-                for val in parse_entities(text.start(), text.as_str()) {
-                    match val {
-                        Ok(val) => {
-                            let txt = match val {
-                                Txt::Text(_pos, val) => val,
-                                Txt::Entity(pos, name) => {
-                                    if let Some(txt) = self.entity_definitions.get(name) {
-                                        txt
-                                    } else {
-                                        return Err(ValidatorError::UndefinedEntity {
-                                            name,
-                                            span: pos..pos + name.len(),
-                                        });
-                                    }
-                                }
-                                Txt::Char(_pos, val) => {
-                                    buffer.push(val);
-                                    continue;
-                                }
-                            };
-                            // we only reach this point for Txt::Text and Txt::Entity cases,
-                            if txt.len() == text.len() {
-                                // no need to copy data into the buffer, just process the whole input in one go
-                                break;
-                            } else {
-                                // the input contains entities, so we decode these and append to buffer
-                                buffer.push_str(txt);
-                            }
-                        }
-                        Err(err) => {
-                            return Err(err);
-                        }
-                    }
-                }
-                let data = if buffer.is_empty() {
-                    text.as_str()
-                } else {
-                    &buffer[..]
-                };
-                let next_id = Self::text_deriv(pat, &mut self.schema, data);
+                let mut data = String::new();
+                self.entities.decode(text, TextKind::Content, &mut data)?;
+                let next_id = Self::text_deriv(pat, &mut self.schema, &data);
                 let next_pat = self.schema.patt(next_id);
                 if let Pat::NotAllowed = next_pat {
                     return Err(ValidatorError::NotAllowed(Token::Text { text }));
@@ -817,8 +774,7 @@ impl<'a> Validator<'a> {
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
-                        self.entity_definitions
-                            .insert(name.to_string(), val.to_string());
+                        self.entities.declare(name.as_str(), val)?;
                         // does not change current_step state
                         return Ok(());
                     }
@@ -853,30 +809,21 @@ impl<'a> Validator<'a> {
         evt: Token<'b>,
         pat: Pat,
     ) -> Result<PatId, ValidatorError<'b>> {
-        let name = stack.current_element()?;
+        let (name, start_token) = stack.current_element()?;
         let next_pat = Self::start_tag_open_deriv(pat, schema, name);
         // TODO: refactor early-returns
         let next_pat = match schema.patt(next_pat) {
             Pat::NotAllowed => {
-                return Err(ValidatorError::NotAllowed(Token::ElementStart {
-                    prefix: name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                    local: name.local_name,
-                    span: name.local_name,
-                }));
+                return Err(ValidatorError::NotAllowed(start_token));
             }
             _p => {
                 let attributes: Vec<_> = stack.current_attributes()?;
                 let mut pat = next_pat;
-                for att in attributes {
+                for (att, att_token) in attributes {
                     let mut memo = HashMap::new();
                     pat = Self::att_deriv(&mut memo, pat, schema, att);
                     if let Pat::NotAllowed = schema.patt(pat) {
-                        return Err(ValidatorError::NotAllowed(Token::Attribute {
-                            prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                            local: att.name.local_name,
-                            value: att.value,
-                            span: att.span,
-                        }));
+                        return Err(ValidatorError::NotAllowed(att_token));
                     }
                 }
                 pat
@@ -1013,7 +960,7 @@ impl<'a> Validator<'a> {
         }
     }
 
-    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName<'a>) -> PatId {
+    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName<'_>) -> PatId {
         match current {
             Pat::Choice(l, r, _) => {
                 let left = schema.patt(l);
@@ -1154,7 +1101,7 @@ impl<'a> Validator<'a> {
             }
             Pat::Attribute(ref nc, p) => {
                 let att_pat = schema.patt(p);
-                if contains(nc, att.name) && Self::value_match(att_pat, schema, &att.value) {
+                if contains(nc, att.name) && Self::value_match(att_pat, schema, att.value) {
                     schema.empty()
                 } else {
                     schema.not_allowed()
@@ -1506,7 +1453,7 @@ fn parse_entities(
         type Item = Result<Txt<'a>, ValidatorError<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            if self.offset == self.text.len() {
+            if self.offset == self.text.len() && !self.in_entity {
                 return None;
             }
             for (i, c) in self.text[self.offset..].char_indices() {
@@ -1515,7 +1462,7 @@ fn parse_entities(
                         self.in_entity = false;
                         let text = &self.text[self.offset..self.offset + i];
                         let result = if let Some(text) = text.strip_prefix('#') {
-                            numeric_entity(self.offset, text)
+                            numeric_entity(self.offset + self.pos, text)
                         } else {
                             Ok(Txt::Entity(self.offset + self.pos, text))
                         };
@@ -1533,9 +1480,10 @@ fn parse_entities(
                 }
             }
             if self.in_entity {
-                Some(Err(ValidatorError::InvalidOrUnclosedEntity {
-                    span: self.pos + self.offset - 1..self.pos + self.offset,
-                }))
+                let span = self.pos + self.offset - 1..self.pos + self.offset;
+                self.in_entity = false;
+                self.offset = self.text.len();
+                Some(Err(ValidatorError::InvalidOrUnclosedEntity { span }))
             } else {
                 let result = Txt::Text(self.offset + self.pos, &self.text[self.offset..]);
                 self.offset = self.text.len();
@@ -1544,25 +1492,21 @@ fn parse_entities(
         }
     }
     fn numeric_entity(pos: usize, text: &str) -> Result<Txt<'_>, ValidatorError<'_>> {
-        if text.is_empty() {
-            return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
-        }
-        let c = if let Some(text) = text.strip_prefix('x') {
-            let pos = pos + 1;
-            if text.is_empty() {
-                return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
-            }
-            u32::from_str_radix(text, 16)
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
-        } else {
-            text.parse()
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
+        let (digits, radix) = match text.strip_prefix('x') {
+            Some(hex) => (hex, 16),
+            None => (text, 10),
         };
-        Ok(Txt::Char(
-            pos,
-            std::char::from_u32(c)
-                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?,
-        ))
+        // from_str_radix() would accept a leading '+'
+        if digits.chars().all(|c| c.is_digit(radix)) {
+            u32::from_str_radix(digits, radix)
+                .ok()
+                .and_then(std::char::from_u32)
+                .filter(|c| is_xml_char(*c))
+        } else {
+            None
+        }
+        .map(|c| Txt::Char(pos, c))
+        .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })
     }
     Entities {
         text,
@@ -1572,6 +1516,156 @@ fn parse_entities(
     }
 }
 
+/// Where some text appears in the document; this affects the normalisation of whitespace
+#[derive(Copy, Clone, PartialEq)]
+enum TextKind {
+    Content,
+    AttributeValue,
+}
+
+/// The internal general entities declared by the document
+#[derive(Default)]
+struct EntityDefinitions {
+    replacements: HashMap<String, String>,
+}
+impl EntityDefinitions {
+    // Limits on the work that may be caused by a single reference to an entity which itself
+    // includes references to other entities
+    const MAX_NESTED_REFERENCES: usize = 1 << 16;
+    const MAX_NESTED_LEN: usize = 1 << 20;
+    const MAX_DEPTH: usize = 64;
+
+    fn declare<'a>(&mut self, name: &str, value: StrSpan<'a>) -> Result<(), ValidatorError<'a>> {
+        // character references are expanded when the entity is declared, but references to
+        // other entities are not expanded until the entity being declared is itself referenced
+        let mut replacement = String::new();
+        for val in parse_entities(value.start(), value.as_str()) {
+            match val? {
+                Txt::Text(_pos, text) => normalize_line_ends(text, &mut replacement),
+                Txt::Char(_pos, c) => replacement.push(c),
+                Txt::Entity(_pos, name) => {
+                    replacement.push('&');
+                    replacement.push_str(name);
+                    replacement.push(';');
+                }
+            }
+        }
+        // if there are multiple declarations, then the first is binding
+        self.replacements
+            .entry(name.to_string())
+            .or_insert(replacement);
+        Ok(())
+    }
+
+    fn predefined(name: &str) -> Option<char> {
+        match name {
+            "lt" => Some('<'),
+            "gt" => Some('>'),
+            "amp" => Some('&'),
+            "apos" => Some('\''),
+            "quot" => Some('"'),
+            _ => None,
+        }
+    }
+
+    /// Appends the given text to `out`, having expanded any references it contains
+    fn decode<'a>(
+        &self,
+        text: StrSpan<'a>,
+        kind: TextKind,
+        out: &mut String,
+    ) -> Result<(), ValidatorError<'a>> {
+        for val in parse_entities(text.start(), text.as_str()) {
+            match val? {
+                Txt::Text(_pos, text) if kind == TextKind::AttributeValue => {
+                    let mut normal = String::new();
+                    normalize_line_ends(text, &mut normal);
+                    push_attribute_text(&normal, out);
+                }
+                Txt::Text(_pos, text) => normalize_line_ends(text, out),
+                Txt::Char(_pos, c) => out.push(c),
+                Txt::Entity(pos, name) => {
+                    let span = pos..pos + name.len();
+                    if let Some(c) = Self::predefined(name) {
+                        out.push(c);
+                    } else if let Some(replacement) = self.replacements.get(name) {
+                        let mut budget = Self::MAX_NESTED_REFERENCES;
+                        self.expand(replacement, kind, Self::MAX_DEPTH, &mut budget, out)
+                            .map_err(|()| ValidatorError::InvalidOrUnclosedEntity { span })?;
+                    } else {
+                        return Err(ValidatorError::UndefinedEntity { name, span });
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Appends the replacement text of an entity to `out`
+    fn expand(
+        &self,
+        replacement: &str,
+        kind: TextKind,
+        depth: usize,
+        budget: &mut usize,
+        out: &mut String,
+    ) -> Result<(), ()> {
+        // elements within entities are not supported
+        if replacement.contains('<') {
+            return Err(());
+        }
+        let limit = out.len() + Self::MAX_NESTED_LEN;
+        for val in parse_entities(0, replacement) {
+            match val.map_err(|_| ())? {
+                Txt::Text(_pos, text) if kind == TextKind::AttributeValue => {
+                    push_attribute_text(text, out)
+                }
+                Txt::Text(_pos, text) => out.push_str(text),
+                Txt::Char(_pos, c) => out.push(c),
+                Txt::Entity(_pos, name) => {
+                    if let Some(c) = Self::predefined(name) {
+                        out.push(c);
+                        continue;
+                    }
+                    let nested = self.replacements.get(name).ok_or(())?;
+                    *budget = budget.checked_sub(1).ok_or(())?;
+                    // recursive entities will eventually exhaust the allowed depth
+                    let depth = depth.checked_sub(1).ok_or(())?;
+                    self.expand(nested, kind, depth, budget, out)?;
+                    if out.len() > limit {
+                        return Err(());
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+}
+
+/// XML requires all of "\r\n", "\r" and "\n" to be treated as "\n"
+fn normalize_line_ends(text: &str, out: &mut String) {
+    let mut lines = text.split('\r');
+    out.push_str(lines.next().unwrap_or_default());
+    for line in lines {
+        if !line.starts_with('\n') {
+            out.push('\n');
+        }
+        out.push_str(line);
+    }
+}
+
+/// Literal whitespace in attribute values is normalised to the space character
+fn push_attribute_text(text: &str, out: &mut String) {
+    out.extend(
+        text.chars()
+            .map(|c| if is_whitespace_char(c) { ' ' } else { c }),
+    )
+}
+
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\x09' | '\x0a' | '\x0d' | '\x20'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
@@ -1588,21 +1682,19 @@ struct ElementStack<'a> {
 }
 
 impl<'a> ElementStack<'a> {
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<&str> {
         self.elements
             .iter()
             .rev()
             .find_map(|elem| elem.lookup_namespace_uri(prefix))
-            .or_else(|| {
-                // the 'xml' prefix never needs to be declared
-                (prefix == "xml").then(|| StrSpan::from(XML_NAMESPACE_URI))
-            })
+            // the 'xml' prefix never needs to be declared
+            .or((prefix == "xml").then_some(XML_NAMESPACE_URI))
     }
 
     fn try_lookup_namespace_uri(
         &self,
         prefix: StrSpan<'a>,
-    ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
+    ) -> Result<Option<&str>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
             // the default namespace, unless there is none, or it's been undeclared by xmlns=""
             Ok(self.lookup_namespace_uri("").filter(|ns| !ns.is_empty()))
@@ -1632,17 +1724,18 @@ impl<'a> ElementStack<'a> {
         prefix: StrSpan<'a>,
         local: StrSpan<'a>,
         value: StrSpan<'a>,
+        decoded_value: String,
         span: StrSpan<'a>,
     ) {
         if prefix.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix: local,
-                namespace_uri: value,
+                namespace_uri: decoded_value,
             })
         } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix,
-                namespace_uri: value,
+                namespace_uri: decoded_value,
             })
         } else {
             self.elements
@@ -1653,19 +1746,26 @@ impl<'a> ElementStack<'a> {
                     prefix,
                     local,
                     value,
+                    decoded_value,
                     span,
                 })
         }
     }
-    fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
+    fn current_element(&self) -> Result<(QualifiedName<'_>, Token<'a>), ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
         let namespace_uri = self.try_lookup_namespace_uri(curr.prefix)?;
-        Ok(QualifiedName {
+        let name = QualifiedName {
             namespace_uri,
             local_name: curr.local,
-        })
+        };
+        let token = Token::ElementStart {
+            prefix: curr.prefix,
+            local: curr.local,
+            span: curr.local,
+        };
+        Ok((name, token))
     }
-    fn current_attributes(&self) -> Result<Vec<Attr<'a>>, ValidatorError<'a>> {
+    fn current_attributes(&self) -> Result<Vec<(Attr<'_>, Token<'a>)>, ValidatorError<'a>> {
         self.elements
             .last()
             .unwrap()
@@ -1677,14 +1777,20 @@ impl<'a> ElementStack<'a> {
                 } else {
                     self.try_lookup_namespace_uri(unresolved.prefix)?
                 };
-                Ok(Attr {
+                let attr = Attr {
                     name: QualifiedName {
                         namespace_uri,
                         local_name: unresolved.local,
                     },
+                    value: &unresolved.decoded_value,
+                };
+                let token = Token::Attribute {
+                    prefix: unresolved.prefix,
+                    local: unresolved.local,
                     value: unresolved.value,
                     span: unresolved.span,
-                })
+                };
+                Ok((attr, token))
             })
             .collect()
     }
@@ -1694,6 +1800,8 @@ struct UnresolvedAttr<'a> {
     prefix: StrSpan<'a>,
     local: StrSpan<'a>,
     value: StrSpan<'a>,
+    // the value, after expanding references and normalising whitespace
+    decoded_value: String,
     span: StrSpan<'a>,
 }
 struct ElementState<'a> {
@@ -1707,17 +1815,17 @@ impl<'a> ElementState<'a> {
     fn is_named(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
         self.prefix.as_str() == prefix.as_str() && self.local.as_str() == local.as_str()
     }
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<&str> {
         self.namespaces
             .iter()
             .find(|ns| ns.prefix.as_str() == prefix)
-            .map(|ns| ns.namespace_uri)
+            .map(|ns| &ns.namespace_uri[..])
     }
 }
 
 struct Ns<'a> {
     prefix: StrSpan<'a>,
-    namespace_uri: StrSpan<'a>,
+    namespace_uri: String,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 48461b2b10092be595d534af6f5345e16286677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 05/58] fix: reject elements that repeat an attribute

'<a x="1" x="2"/>' was accepted by patterns such as 'attribute * { text }*'
---
 relaxng-validator/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index b9de5c9..07fb96c 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -695,6 +695,10 @@ impl<'a> Validator<'a> {
                 value,
                 span,
             } => {
+                if self.stack.declares_namespace(prefix, local) {
+                    // XML does not allow an attribute to be repeated
+                    return Err(ValidatorError::NotAllowed(evt));
+                }
                 let mut decoded = String::new();
                 self.entities
                     .decode(value, TextKind::AttributeValue, &mut decoded)?;
@@ -819,7 +823,12 @@ impl<'a> Validator<'a> {
             _p => {
                 let attributes: Vec<_> = stack.current_attributes()?;
                 let mut pat = next_pat;
+                let mut seen = HashSet::new();
                 for (att, att_token) in attributes {
+                    if !seen.insert((att.name.namespace_uri, att.name.local_name.as_str())) {
+                        // XML does not allow an attribute to be repeated
+                        return Err(ValidatorError::NotAllowed(att_token));
+                    }
                     let mut memo = HashMap::new();
                     pat = Self::att_deriv(&mut memo, pat, schema, att);
                     if let Pat::NotAllowed = schema.patt(pat) {
@@ -1719,6 +1728,16 @@ impl<'a> ElementStack<'a> {
     fn pop(&mut self) -> Option<ElementState<'a>> {
         self.elements.pop()
     }
+    /// Is this the name of a namespace declaration already seen on the current element?
+    fn declares_namespace(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
+        let declared = match (prefix.as_str(), local.as_str()) {
+            ("xmlns", prefix) => prefix,
+            ("", "xmlns") => "",
+            _ => return false,
+        };
+        let curr = self.elements.last().unwrap();
+        curr.lookup_namespace_uri(declared).is_some()
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
-- 
2.43.0


From 9fa1283f0414feff25bc932611990659fa9039c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 06/58] fix: match the text between two tags as a whole

Text was matched piecemeal, so that values split by comments, CDATA sections
or references didn't match 'value', 'data' and 'list' patterns, or matched
too leniently; empty elements didn't match patterns allowing an empty string;
and lists were split on Unicode rather than XML whitespace.
---
 relaxng-validator/src/lib.rs | 208 +++++++++++++++++------------------
 1 file changed, 104 insertions(+), 104 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 07fb96c..8b0490a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -521,7 +521,12 @@ pub struct Validator<'a> {
     schema: Schema,
     tokenizer: Tokenizer<'a>,
     current_step: PatId,
-    last_was_start_element: bool,
+    /// Has there been no child element since the last start-tag?
+    no_child_elements: bool,
+    /// Text seen since the last start-tag or end-tag, possibly accumulated from several tokens
+    pending_text: String,
+    /// The token to be reported as problematic, should the pending text not be allowed
+    pending_token: Option<Token<'a>>,
     stack: ElementStack<'a>,
     entities: EntityDefinitions,
     seen_root: bool,
@@ -542,7 +547,9 @@ impl<'a> Validator<'a> {
             schema,
             tokenizer,
             current_step: start,
-            last_was_start_element: false,
+            no_child_elements: false,
+            pending_text: String::new(),
+            pending_token: None,
             stack: ElementStack::default(),
             entities: EntityDefinitions::default(),
             seen_root: false,
@@ -670,8 +677,7 @@ impl<'a> Validator<'a> {
                 span,
             } => {
                 self.stack.push(prefix, local, span);
-                // does not change current_step state
-                return Ok(());
+                return self.process_pending_text(false);
             }
             /*
                 let next_pat = Self::start_tag_open_deriv(pat, &mut self.schema, namespace, &name);
@@ -706,70 +712,46 @@ impl<'a> Validator<'a> {
                 // does not change current_step state
                 return Ok(());
             }
-            Token::ElementEnd { end, span: _ } => {
-                match end {
-                    ElementEnd::Open => {
-                        Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
-                    }
-                    ElementEnd::Close(prefix, local) => {
-                        match self.stack.pop() {
-                            Some(open) if open.is_named(prefix, local) => {}
-                            // the end-tag does not match the corresponding start-tag
-                            _ => return Err(ValidatorError::NotAllowed(evt)),
-                        }
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
-                        Self::end_tag_deriv(next_pat, &mut self.schema)
-                    }
-                    ElementEnd::Empty => {
-                        let result =
-                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat);
-                        self.stack.pop();
-                        let pat = self.schema.patt(result?);
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
-                        Self::end_tag_deriv(next_pat, &mut self.schema)
+            Token::ElementEnd { end, span: _ } => match end {
+                ElementEnd::Open => {
+                    let result = Self::close_element_start(&self.stack, &mut self.schema, evt, pat);
+                    self.no_child_elements = true;
+                    result?
+                }
+                ElementEnd::Close(prefix, local) => {
+                    let text_result = self.process_pending_text(true);
+                    let pat = self.schema.patt(self.current_step);
+                    self.no_child_elements = false;
+                    match self.stack.pop() {
+                        Some(open) if open.is_named(prefix, local) => {}
+                        // the end-tag does not match the corresponding start-tag
+                        _ => return Err(ValidatorError::NotAllowed(evt)),
                     }
-                }
+                    text_result?;
+                    Self::end_tag_deriv(pat, &mut self.schema)
+                }
+                ElementEnd::Empty => {
+                    let result = Self::close_element_start(&self.stack, &mut self.schema, evt, pat);
+                    self.no_child_elements = false;
+                    self.stack.pop();
+                    let next_id = Self::only_text_deriv(result?, &mut self.schema, "");
+                    let next_pat = self.schema.patt(next_id);
+                    Self::end_tag_deriv(next_pat, &mut self.schema)
+                }
+            },
+            Token::Cdata { text, span: _ } => {
+                let start = self.pending_text.len();
+                normalize_line_ends(text.as_str(), &mut self.pending_text);
+                self.text_added(start, evt);
+                return Ok(());
             }
-            Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
             Token::Text { text } => {
-                let mut data = String::new();
-                self.entities.decode(text, TextKind::Content, &mut data)?;
-                let next_id = Self::text_deriv(pat, &mut self.schema, &data);
-                let next_pat = self.schema.patt(next_id);
-                if let Pat::NotAllowed = next_pat {
-                    return Err(ValidatorError::NotAllowed(Token::Text { text }));
-                }
-                next_id
+                let start = self.pending_text.len();
+                let result =
+                    self.entities
+                        .decode(text, TextKind::Content, &mut self.pending_text);
+                self.text_added(start, evt);
+                return result;
             }
             Token::EntityDeclaration {
                 name,
@@ -794,11 +776,6 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
         };
-        if let Token::ElementStart { .. } = evt {
-            self.last_was_start_element = true;
-        } else {
-            self.last_was_start_element = false;
-        }
         if let Pat::NotAllowed = self.schema.patt(new) {
             Err(ValidatorError::NotAllowed(evt))
         } else {
@@ -807,6 +784,59 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// To be called when text has been appended to pending_text, starting from the given offset
+    fn text_added(&mut self, start: usize, token: Token<'a>) {
+        // text is only ever a problem on account of something other than whitespace (except when
+        // it's all whitespace, in which case the end-tag will be reported)
+        if self.pending_token.is_none() && !is_whitespace_str(&self.pending_text[start..]) {
+            self.pending_token = Some(token);
+        }
+    }
+
+    /// Update the current state to account for all the text preceding a start-tag or end-tag.
+    ///
+    /// Since the text between two tags may be delivered as several tokens (because of comments,
+    /// CDATA sections, etc), it can't be matched until the tag following that text is known.
+    fn process_pending_text(&mut self, at_end_tag: bool) -> Result<(), ValidatorError<'a>> {
+        let text = std::mem::take(&mut self.pending_text);
+        let token = self.pending_token.take();
+        // from 'An algorithm for RELAX NG validation':
+        //   "In the case where the list of children consists of a single text node and the
+        //    value of the text node consists only of whitespace, the list of children
+        //    matches if the list matches either with or without stripping the text node."
+        //   "Otherwise, there must be one or more elements amongst the children, in which
+        //    case any whitespace-only text nodes are stripped before the derivative is
+        //    computed."
+        let new = if at_end_tag && self.no_child_elements {
+            Self::only_text_deriv(self.current_step, &mut self.schema, &text)
+        } else if is_whitespace_str(&text) {
+            return Ok(());
+        } else {
+            let pat = self.schema.patt(self.current_step);
+            Self::text_deriv(pat, &mut self.schema, &text)
+        };
+        match (self.schema.patt(new), token) {
+            (Pat::NotAllowed, Some(token)) => Err(ValidatorError::NotAllowed(token)),
+            _ => {
+                self.current_step = new;
+                Ok(())
+            }
+        }
+    }
+
+    /// The derivative for the content of an element which has no child elements
+    fn only_text_deriv(current: PatId, schema: &mut Schema, text: &str) -> PatId {
+        let pat = schema.patt(current);
+        // "The case where the list of children is empty is treated as if there were a text node
+        //  whose value were the empty string."
+        let d = Self::text_deriv(pat, schema, text);
+        if is_whitespace_str(text) {
+            schema.choice(current, d)
+        } else {
+            d
+        }
+    }
+
     fn close_element_start<'b: 'a>(
         stack: &ElementStack<'b>,
         schema: &mut Schema,
@@ -919,51 +949,21 @@ impl<'a> Validator<'a> {
             }
             Pat::List(p) => {
                 let mut p = p;
-                for item in text.split_whitespace() {
+                for item in text.split(is_whitespace_char).filter(|item| !item.is_empty()) {
                     let pat = schema.patt(p);
                     p = Self::text_deriv(pat, schema, item);
                     if let Pat::NotAllowed = schema.patt(p) {
                         return p;
                     }
                 }
-                let last_patt = schema.patt(p);
-                if let Pat::Empty = last_patt {
-                    p
-                } else if last_patt.is_nullable() {
-                    // List is not able to be nullable per https://relaxng.org/jclark/derivative.html
-                    // but that definition assumes that we can see all text content up-front
-                    // whereas processing instructions CDATA sections etc may mean we see
-                    // text children piecemeal here.  To accommodate this, we make the list
-                    // optional here (TODO: should we rather adjust List to be nullable?)
-                    schema.choice(schema.list(p), schema.empty())
-                } else {
-                    schema.list(p)
-                }
-            }
-            Pat::Empty => {
-                // from 'An algorithm for RELAX NG validation':
-                //   "In the case where the list of children consists of a single text node and the
-                //    value of the text node consists only of whitespace, the list of children
-                //    matches if the list matches either with or without stripping the text node."
-                //   "Otherwise, there must be one or more elements amongst the children, in which
-                //    case any whitespace-only text nodes are stripped before the derivative is
-                //    computed."
-                // The document assumes however that we can see the list of child nodes, so we need
-                // to handle this case in a streaming manner.  Right now we don't track that
-                // that this pattern is being tested in the context of child nodes - FIXME!
-                if xml::common::is_whitespace_str(text) {
+                if schema.patt(p).is_nullable() {
                     schema.empty()
                 } else {
                     schema.not_allowed()
                 }
             }
-            Pat::NotAllowed | Pat::Attribute(_, _) => schema.not_allowed(),
-            Pat::Element(_, _) => {
-                if xml::common::is_whitespace_str(text) {
-                    schema.push(current) // TODO: just have the PatId to hand
-                } else {
-                    schema.not_allowed()
-                }
+            Pat::Empty | Pat::NotAllowed | Pat::Attribute(_, _) | Pat::Element(_, _) => {
+                schema.not_allowed()
             }
             Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
         }
-- 
2.43.0


From c737ba406be32553afb5d07d1fefe5a647254d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 07/58] fix: eliminate redundant choices, to avoid exponential
 blowup

---
 relaxng-validator/src/lib.rs | 55 ++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 8b0490a..af62adb 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -100,7 +100,6 @@ impl Schema {
         }
     }
     pub fn choice(&self, left: PatId, right: PatId) -> PatId {
-        // TODO:
         //       "In order to avoid exponential blowup with some patterns, it is essential
         //        for the choice function to eliminate redundant choices. Define the
         //        choice-leaves of a pattern to be the concatenation of the choice-leaves of
@@ -111,22 +110,56 @@ impl Schema {
         //        a hash-table of the set of choice-leaves of that operand; then walk the other
         //        operand using this hash-table to eliminate any choice-leaf that has occurred
         //        in the other operand."
+        if left == right {
+            return left;
+        }
         match (self.patt(left), self.patt(right)) {
             (Pat::NotAllowed, _) => right,
             (_, Pat::NotAllowed) => left,
-            (l, r) => {
-                if left == right {
-                    //println!("Choices are identical: left=right={:?} - {}", l, left.0);
-                    return left;
-                }
-                if l.is_nullable() {
-                    //println!("**redundant choice construction? l => nullable");
+            (_, _) => {
+                let mut leaves = HashSet::new();
+                self.choice_leaves(right, &mut leaves);
+                match self.without_leaves(left, &leaves) {
+                    None => right,
+                    Some(left) => {
+                        let nullable =
+                            self.patt(left).is_nullable() || self.patt(right).is_nullable();
+                        self.push(Pat::Choice(left, right, nullable))
+                    }
                 }
-                if r.is_nullable() {
-                    //println!("**redundant choice construction? r => nullable");
+            }
+        }
+    }
+    fn choice_leaves(&self, id: PatId, leaves: &mut HashSet<PatId>) {
+        match self.patt(id) {
+            Pat::Choice(l, r, _) => {
+                self.choice_leaves(l, leaves);
+                self.choice_leaves(r, leaves);
+            }
+            _ => {
+                leaves.insert(id);
+            }
+        }
+    }
+    /// Removes the given choice-leaves from a pattern, returning None if nothing is left
+    fn without_leaves(&self, id: PatId, leaves: &HashSet<PatId>) -> Option<PatId> {
+        match self.patt(id) {
+            Pat::Choice(l, r, _) => {
+                match (
+                    self.without_leaves(l, leaves),
+                    self.without_leaves(r, leaves),
+                ) {
+                    (None, None) => None,
+                    (None, Some(id)) | (Some(id), None) => Some(id),
+                    (Some(new_l), Some(new_r)) if new_l == l && new_r == r => Some(id),
+                    (Some(l), Some(r)) => {
+                        let nullable = self.patt(l).is_nullable() || self.patt(r).is_nullable();
+                        Some(self.push(Pat::Choice(l, r, nullable)))
+                    }
                 }
-                self.push(Pat::Choice(left, right, l.is_nullable() || r.is_nullable()))
             }
+            _ if leaves.contains(&id) => None,
+            _ => Some(id),
         }
     }
     pub fn interleave(&self, left: PatId, right: PatId) -> PatId {
-- 
2.43.0


From 52b5dd9a5ce4c3a910d7738fd124b376bb06c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 08/58] fix: determine the nullability of recursively
 referenced definitions

Patterns built while a definition was still being compiled took references
to it to be non-nullable, and a definition being just a reference to one of
those caused a panic.
---
 relaxng-validator/src/lib.rs | 83 +++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index af62adb..f922758 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -48,7 +48,8 @@ enum Pat {
     DatatypeValue(datatype::DatatypeValues),
     DatatypeExcept(datatype::Datatypes, PatId),
     List(PatId),
-    Placeholder(*const Option<relaxng_model::model::DefineRule>),
+    // stands for a definition until that has been compiled (the flag is its nullability)
+    Placeholder(*const Option<relaxng_model::model::DefineRule>, bool),
     After(PatId, PatId),
 }
 
@@ -68,7 +69,7 @@ impl Pat {
             Pat::DatatypeValue(_) => false,
             Pat::DatatypeExcept(_, _) => false,
             Pat::List(_) => false,
-            Pat::Placeholder(_name) => false, //unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(_, nullable) => *nullable,
             Pat::After(_, _) => false,
         }
     }
@@ -79,6 +80,10 @@ struct Inner {
     memo: HashMap<Pat, PatId>,
     patterns: Vec<Pat>,
     refs: HashMap<*const Option<relaxng_model::model::DefineRule>, PatId>,
+    nullable_refs: HashMap<*const Option<relaxng_model::model::DefineRule>, bool>,
+    // placeholders for definitions that are nothing but a reference to another definition which
+    // was, at that time, a placeholder itself
+    aliases: Vec<(PatId, PatId)>,
 }
 #[derive(Default)]
 struct Schema {
@@ -240,9 +245,9 @@ impl Schema {
     fn ref_placeholder(
         &self,
         p: *const Option<relaxng_model::model::DefineRule>,
-        _name: &str,
+        nullable: bool,
     ) -> PatId {
-        let pl = Pat::Placeholder(p);
+        let pl = Pat::Placeholder(p, nullable);
         let id = self.push(pl);
         let mut inner = self.inner.borrow_mut();
         inner.refs.insert(p, id);
@@ -254,15 +259,13 @@ impl Schema {
             return;
         }
         let target = self.patt(id);
-        if let Pat::Placeholder(_) = target {
-            panic!(
-                "can't resolve placeholder {} with another placeholder {}",
-                placeholder_id.0, id.0
-            );
-        }
         let mut inner = self.inner.borrow_mut();
+        if let Pat::Placeholder(..) = target {
+            inner.aliases.push((placeholder_id, id));
+            return;
+        }
         match &inner.patterns[placeholder_id.0 as usize] {
-            Pat::Placeholder(_) => (),
+            Pat::Placeholder(..) => (),
             p => panic!(
                 "expected placeholder but got {:?}, with id {} while trying to resolve it to {}, for definition {:?}",
                 p, placeholder_id.0, id.0, name
@@ -270,6 +273,45 @@ impl Schema {
         }
         inner.patterns[placeholder_id.0 as usize] = target;
     }
+    /// To be called once all definitions have been compiled
+    fn resolve_aliases(&self) {
+        let mut inner = self.inner.borrow_mut();
+        // the target of an alias may only become an alias itself after the former is recorded
+        while let Some((placeholder_id, id)) = inner.aliases.pop() {
+            inner.patterns[placeholder_id.0 as usize] = inner.patterns[id.0 as usize].clone();
+        }
+    }
+    fn is_model_nullable(&self, p: &model::Pattern) -> bool {
+        match p {
+            model::Pattern::Choice(v) => v.iter().any(|p| self.is_model_nullable(p)),
+            model::Pattern::Interleave(v) | model::Pattern::Group(v) => {
+                v.iter().all(|p| self.is_model_nullable(p))
+            }
+            model::Pattern::Mixed(p) | model::Pattern::OneOrMore(p) => self.is_model_nullable(p),
+            model::Pattern::Empty
+            | model::Pattern::Text
+            | model::Pattern::Optional(_)
+            | model::Pattern::ZeroOrMore(_) => true,
+            model::Pattern::NotAllowed
+            | model::Pattern::Attribute(_, _)
+            | model::Pattern::Element(_, _)
+            | model::Pattern::DatatypeValue { .. }
+            | model::Pattern::DatatypeName { .. }
+            | model::Pattern::List(_) => false,
+            model::Pattern::Ref(_, _, r) => {
+                let ptr: *const _ = r.0.as_ptr();
+                if let Some(nullable) = self.inner.borrow().nullable_refs.get(&ptr) {
+                    return *nullable;
+                }
+                let nullable =
+                    r.0.borrow()
+                        .as_ref()
+                        .is_some_and(|rule| self.is_model_nullable(rule.pattern()));
+                self.inner.borrow_mut().nullable_refs.insert(ptr, nullable);
+                nullable
+            }
+        }
+    }
     fn patt(&self, id: PatId) -> Pat {
         self.inner.borrow().patterns[id.0 as usize].clone()
     }
@@ -306,7 +348,7 @@ impl Schema {
             Pat::Datatype(_) => {}
             Pat::DatatypeValue(_) => {}
             Pat::DatatypeExcept(_, _) => {}
-            Pat::Placeholder(_) | Pat::After(_, _) => unreachable!(),
+            Pat::Placeholder(..) | Pat::After(_, _) => unreachable!(),
         }
         false
     }
@@ -330,7 +372,7 @@ impl Schema {
             Pat::Empty | Pat::Text | Pat::NotAllowed | Pat::Datatype(_) | Pat::DatatypeValue(_) => {
             }
             Pat::DatatypeExcept(_, p) => self.check_choices(p, seen),
-            Pat::Placeholder(_) | Pat::After(_, _) => unreachable!(),
+            Pat::Placeholder(..) | Pat::After(_, _) => unreachable!(),
         }
     }
 
@@ -434,7 +476,7 @@ impl Schema {
                     }
                     writeln!(w, ")")
                 }
-                Pat::Placeholder(_) => {
+                Pat::Placeholder(..) => {
                     writeln!(w, "Placeholder{}", pat.0)
                 }
                 Pat::After(p1, p2) => {
@@ -488,7 +530,7 @@ impl Schema {
                 Pat::List(_p) => {
                     writeln!(w, "List{}!", pat.0)
                 }
-                Pat::Placeholder(_) => unreachable!(),
+                Pat::Placeholder(..) => unreachable!(),
                 Pat::After(_p1, _p2) => {
                     writeln!(w, "After{}!", pat.0)
                 }
@@ -576,6 +618,7 @@ impl<'a> Validator<'a> {
             &schema,
             Rc::as_ref(&model).borrow().as_ref().unwrap().pattern(),
         );
+        schema.resolve_aliases();
         Validator {
             schema,
             tokenizer,
@@ -631,7 +674,7 @@ impl<'a> Validator<'a> {
                 if let Some(id) = s.get_ref(ptr) {
                     id
                 } else {
-                    let placeholder_id = s.ref_placeholder(ptr, name);
+                    let placeholder_id = s.ref_placeholder(ptr, s.is_model_nullable(p));
                     if let Some(thing) = Rc::as_ref(&r.0).borrow().as_ref() {
                         let id = Self::compile(s, thing.pattern());
                         s.resolve_ref(placeholder_id, id, name);
@@ -682,7 +725,7 @@ impl<'a> Validator<'a> {
     fn assert_health(&self) {
         let mut fail = false;
         for v in self.schema.inner.borrow().refs.values() {
-            if let Pat::Placeholder(_p) = self.schema.patt(*v) {
+            if let Pat::Placeholder(..) = self.schema.patt(*v) {
                 println!("Still a placeholder: {v:?}");
                 fail = true;
             }
@@ -998,7 +1041,7 @@ impl<'a> Validator<'a> {
             Pat::Empty | Pat::NotAllowed | Pat::Attribute(_, _) | Pat::Element(_, _) => {
                 schema.not_allowed()
             }
-            Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(ptr, _) => unreachable!("Placeholder {:?}", ptr),
         }
     }
 
@@ -1071,7 +1114,7 @@ impl<'a> Validator<'a> {
             | Pat::DatatypeValue(_)
             | Pat::DatatypeExcept(_, _)
             | Pat::List(_) => schema.not_allowed(),
-            Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(ptr, _) => unreachable!("Placeholder {:?}", ptr),
         }
     }
 
@@ -1263,7 +1306,7 @@ impl<'a> Validator<'a> {
                 result.insert(pat);
             }
             Pat::List(p) => self.head(result, p),
-            Pat::Placeholder(_) => panic!("Unexpected {pat:?}"),
+            Pat::Placeholder(..) => panic!("Unexpected {pat:?}"),
             Pat::After(p, _) => self.head(result, p),
         }
     }
-- 
2.43.0


From b872c922593b4ec00e8d18d6816a268dfc9696f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 09/58] fix: don't limit documents to 2^16 distinct patterns

The table of patterns grows with the depth of the document (among others), and
the validator panicked once it had 2^16 entries.
---
 relaxng-validator/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index f922758..e389a6d 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -24,7 +24,7 @@ pub enum ValidatorError<'a> {
 }
 
 #[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
-struct PatId(u16);
+struct PatId(u32);
 
 // TODO: separate representations?
 //       1) includes 'Placeholder, but doesn't include nullability flags or 'After'
@@ -92,13 +92,10 @@ struct Schema {
 impl Schema {
     fn push(&self, p: Pat) -> PatId {
         let mut inner = self.inner.borrow_mut();
-        if inner.patterns.len() > 0xffff {
-            panic!("Only up to 2^16 rules supported in one schema")
-        }
         if let Some(id) = inner.memo.get(&p) {
             *id
         } else {
-            let id = PatId(inner.patterns.len() as u16);
+            let id = PatId(inner.patterns.len() as u32);
             inner.memo.insert(p.clone(), id);
             inner.patterns.push(p);
             id
-- 
2.43.0


From a49fc6614a37bab9181314eb3f5ea38fe6797af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 10/58] fix: locate XML syntax errors properly in diagnostics

diagnostic() took row numbers to start from 0, so it panicked for an error in
the last line of the document, and otherwise pointed at the wrong line.
---
 relaxng-validator/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index e389a6d..f1f9bc9 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1393,8 +1393,18 @@ impl<'a> Validator<'a> {
         let mut diagnostics = vec![];
         match err {
             ValidatorError::Xml(err) => {
-                let line = file.line_span(err.pos().row as _);
-                let span = line.subspan(err.pos().row as _, err.pos().row as _);
+                // rows and columns are numbered from 1, and columns count characters, not bytes
+                let row = (err.pos().row as usize)
+                    .saturating_sub(1)
+                    .min(file.num_lines() - 1);
+                let line = file.line_span(row);
+                let column = (err.pos().col as usize).saturating_sub(1);
+                let offset = file
+                    .source_slice(line)
+                    .char_indices()
+                    .nth(column)
+                    .map_or(line.len(), |(i, _)| i as u64);
+                let span = line.subspan(offset, offset);
 
                 let label = codemap_diagnostic::SpanLabel {
                     span,
-- 
2.43.0


From b8c1274db3e3790d342398a4923692b08739deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 11/58] fix: describe the elements which are actually expected
 in diagnostics

The content of a group following a mandatory pattern was listed as expected,
that following an optional pattern was not, and the order of the names varied
between runs.
---
 relaxng-validator/src/lib.rs | 88 ++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index f1f9bc9..fca1533 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1256,92 +1256,80 @@ impl<'a> Validator<'a> {
         }
     }
 
-    #[allow(clippy::mutable_key_type)] // false-positive
-    fn heads(&self, id: PatId) -> HashSet<Pat> {
-        let mut result = HashSet::new();
-        self.head(&mut result, id);
+    /// The patterns which might match next, in a deterministic order
+    fn heads(&self, id: PatId) -> Vec<Pat> {
+        let mut result = vec![];
+        self.head(&mut result, &mut HashSet::new(), id);
         result
     }
-    #[allow(clippy::mutable_key_type)] // false-positive
-    fn head(&self, result: &mut HashSet<Pat>, p: PatId) {
+    fn head(&self, result: &mut Vec<Pat>, seen: &mut HashSet<PatId>, p: PatId) {
+        if !seen.insert(p) {
+            return;
+        }
         // https://www.kohsuke.org/relaxng/implbook/Validation1.html#IDATGOO
         let pat = self.schema.patt(p);
         match pat {
             Pat::Choice(p1, p2, _) => {
-                self.head(result, p1);
-                self.head(result, p2);
+                self.head(result, seen, p1);
+                self.head(result, seen, p2);
             }
             Pat::Interleave(p1, p2, _) => {
-                self.head(result, p1);
-                self.head(result, p2);
+                self.head(result, seen, p1);
+                self.head(result, seen, p2);
             }
             Pat::Group(p1, p2, _) => {
+                self.head(result, seen, p1);
+                // what follows can only come next if the first pattern may match nothing
                 if self.schema.patt(p1).is_nullable() {
-                    self.head(result, p1);
-                } else {
-                    self.head(result, p1);
-                    self.head(result, p2);
+                    self.head(result, seen, p2);
                 }
             }
-            Pat::OneOrMore(p, _) => self.head(result, p),
+            Pat::OneOrMore(p, _) => self.head(result, seen, p),
             Pat::Empty => {}
             Pat::Text => {}
             Pat::NotAllowed => {}
             Pat::Attribute(_, _) => {
-                result.insert(pat);
+                result.push(pat);
             }
             Pat::Element(_, _) => {
-                result.insert(pat);
+                result.push(pat);
             }
             Pat::Datatype(_) => {
-                result.insert(pat);
+                result.push(pat);
             }
             Pat::DatatypeValue(_) => {
-                result.insert(pat);
+                result.push(pat);
             }
             Pat::DatatypeExcept(_, _) => {
-                result.insert(pat);
+                result.push(pat);
             }
-            Pat::List(p) => self.head(result, p),
+            Pat::List(p) => self.head(result, seen, p),
             Pat::Placeholder(..) => panic!("Unexpected {pat:?}"),
-            Pat::After(p, _) => self.head(result, p),
+            Pat::After(p, _) => self.head(result, seen, p),
         }
     }
 
     fn describe_expected(&self, expected_patt: PatId) -> String {
-        #[allow(clippy::mutable_key_type)] // false-positive
-        let heads = self.heads(expected_patt);
-        let mut result = String::new();
-        const MAX_ELEMENTS: usize = 4;
-        let mut rest = 0;
-        for (i, nameclass) in heads
-            .iter()
-            .filter_map(|p| {
-                if let Pat::Element(nameclass, _) = p {
-                    Some(nameclass)
-                } else {
-                    None
-                }
-            })
-            .enumerate()
-        {
-            if i == 0 {
-                result.push_str("Element ");
-            }
-            if i >= MAX_ELEMENTS {
-                rest += 1;
-            } else {
-                if i > 0 {
-                    result.push(' ');
-                }
+        let mut names: Vec<String> = vec![];
+        for pat in self.heads(expected_patt) {
+            if let Pat::Element(nameclass, _) = pat {
                 // TODO: also provide namespace information; grouping by namespace to make the
                 //       information more succinct
                 let mut desc = String::new();
-                self.describe_nameclass(nameclass, &mut desc);
-                result.push_str(&desc);
+                self.describe_nameclass(&nameclass, &mut desc);
+                if !names.contains(&desc) {
+                    names.push(desc);
+                }
             }
         }
-        if rest > 0 {
+        let mut result = String::new();
+        const MAX_ELEMENTS: usize = 4;
+        if !names.is_empty() {
+            result.push_str("Element ");
+            result.push_str(&names[..names.len().min(MAX_ELEMENTS)].join(" "));
+        }
+        if names.len() > MAX_ELEMENTS {
+            let rest = names.len() - MAX_ELEMENTS;
             result.push_str(&format!(" .. or one of {rest} more"))
         }
         // TODO: plus attributes and everything else
-- 
2.43.0


From 575375f1443be92e287091a06c11858a03b04a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 12/58] fix: report missing attributes of a oneOrMore at the
 start-tag

start_tag_close_deriv() kept the attributes inside of a oneOrMore, so their
absence was only noticed at the end-tag of the element.
---
 relaxng-validator/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index fca1533..fc728b8 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -207,8 +207,10 @@ impl Schema {
         self.push(Pat::NotAllowed)
     }
     pub fn one_or_more(&self, pattern: PatId) -> PatId {
-        let p = self.patt(pattern);
-        self.push(Pat::OneOrMore(pattern, p.is_nullable()))
+        match self.patt(pattern) {
+            Pat::NotAllowed => self.not_allowed(),
+            p => self.push(Pat::OneOrMore(pattern, p.is_nullable())),
+        }
     }
     fn attribute(&self, name: model::NameClass, p: PatId) -> PatId {
         self.push(Pat::Attribute(name, p))
@@ -1227,8 +1229,8 @@ impl<'a> Validator<'a> {
                 schema.interleave(c1, c2)
             }
             Pat::OneOrMore(p, _) => {
-                let _o = Self::start_tag_close_deriv(p, schema);
-                schema.one_or_more(p)
+                let o = Self::start_tag_close_deriv(p, schema);
+                schema.one_or_more(o)
             }
             Pat::Attribute(_, _) => schema.not_allowed(),
             _ => pid,
-- 
2.43.0


From 9827a1d6a8702564803f4b2f21cb4386c94b5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 13/58] fix: apply namespace declarations of compact schemas,
 including inherited namespaces

---
 relaxng-model/src/lib.rs | 133 +++++++++++++++++++++++++--------------
 1 file changed, 86 insertions(+), 47 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40b37f4..a5cd624 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -171,7 +171,8 @@ enum Context<'a> {
         file: Arc<codemap::File>,
         refs: RefCell<HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>>,
         namespaces: HashMap<String, String>,
-        default_namespace: String,
+        // None until there is a declaration of the default namespace
+        default_namespace: Option<String>,
         datatypes: HashMap<String, String>,
         //start: Option<DefineRule>,
     },
@@ -183,7 +184,10 @@ enum Context<'a> {
         // a name that's not defined in the include)
         overrides: RefCell<HashMap<String, (codemap::Span, bool)>>,
         namespaces: HashMap<String, String>,
-        default_namespace: String,
+        // None until there is a declaration of the default namespace
+        default_namespace: Option<String>,
+        // the namespace that this file inherits from the file which refers to it
+        inherited_namespace: String,
         datatypes: HashMap<String, String>,
     },
     IncludeOverrides {
@@ -228,7 +232,7 @@ impl<'a> Context<'a> {
             file,
             refs: RefCell::new(HashMap::new()),
             namespaces,
-            default_namespace: "".to_string(),
+            default_namespace: None,
             datatypes,
             //start: None,
         }
@@ -239,8 +243,21 @@ impl<'a> Context<'a> {
         &self,
         span: codemap::Span,
         file: Arc<codemap::File>,
+        inherit: &Option<types::Inherit>,
     ) -> Result<Context<'_>, RelaxError> {
         self.check_include(span, file.clone())?;
+        let inherited_namespace = match inherit {
+            Some(types::Inherit(prefix)) => {
+                let prefix_name = prefix.to_string();
+                self.namespace_uri_for_prefix_str(&prefix_name)
+                    .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
+                        span: self.convert_span(&prefix.span()),
+                        prefix: prefix_name.clone(),
+                    })?
+                    .to_string()
+            }
+            None => self.default_namespace_uri().to_string(),
+        };
         let mut namespaces = HashMap::new();
         namespaces.insert(
             "xml".to_string(),
@@ -256,7 +273,8 @@ impl<'a> Context<'a> {
             file,
             overrides: RefCell::new(HashMap::new()),
             namespaces,
-            default_namespace: "".to_string(),
+            default_namespace: None,
+            inherited_namespace,
             datatypes,
         })
     }
@@ -336,7 +354,9 @@ impl<'a> Context<'a> {
             }
             | Context::Include {
                 default_namespace, ..
-            } => &default_namespace[..],
+            } => default_namespace
+                .as_deref()
+                .unwrap_or_else(|| self.inherited_namespace_uri()),
             Context::IncludeOverrides { parent, .. }
             | Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
@@ -345,15 +365,50 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The namespace which the current file inherits from whichever file refers to it
+    fn inherited_namespace_uri(&self) -> &str {
+        match self {
+            Context::Root { .. } => "",
+            Context::Include {
+                inherited_namespace,
+                ..
+            } => &inherited_namespace[..],
+            Context::IncludeOverrides { parent, .. }
+            | Context::Grammar { parent, .. }
+            | Context::Define { parent, .. }
+            | Context::Element { parent }
+            | Context::Attribute { parent, .. } => parent.inherited_namespace_uri(),
+        }
+    }
+
+    fn declare_default_namespace(&mut self, uri: String) {
+        match self {
+            Context::Root {
+                default_namespace, ..
+            }
+            | Context::Include {
+                default_namespace, ..
+            } => *default_namespace = Some(uri),
+            _ => unreachable!("Not expecting to see namespace declarations in this context"),
+        }
+    }
+
     fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
+        // FIXME: report the location of the declaration
+        let span = self.convert_span(&(0..0));
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
-                if let Some(_old_uri) = namespaces.get(&prefix) {
-                    //Err(RelaxError::NamespacePrefixAlreadyDefined { span: self.convert_span(), prefix })
-                    Ok(())
-                } else {
-                    namespaces.insert(prefix, uri);
-                    Ok(())
+                match namespaces.entry(prefix) {
+                    // the 'xml' prefix is predeclared, but might also be declared explicitly
+                    Entry::Occupied(e) if e.key() == "xml" && *e.get() == uri => Ok(()),
+                    Entry::Occupied(e) => Err(RelaxError::NamespacePrefixAlreadyDefined {
+                        span,
+                        prefix: e.key().clone(),
+                    }),
+                    Entry::Vacant(e) => {
+                        e.insert(uri);
+                        Ok(())
+                    }
                 }
             }
             Context::IncludeOverrides { .. }
@@ -393,6 +448,8 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 match datatypes.entry(prefix) {
+                    // the 'xsd' prefix is predeclared, but might also be declared explicitly
+                    Entry::Occupied(e) if e.key() == "xsd" && *e.get() == uri => Ok(()),
                     Entry::Occupied(e) => {
                         Err(RelaxError::DatatypePrefixAlreadyDefined(e.key().clone()))
                     }
@@ -1312,19 +1369,7 @@ impl<FS: Files> Compiler<FS> {
         // TODO: get the span of the grammar in the file, rather than the span of the whole file
         let include_span = file.span;
 
-        let mut inc_ctx = ctx.new_include(span, file)?;
-
-        if let Some(ref inherit) = inc.1 {
-            let prefix = inherit.0.to_string();
-            let namespace_uri = ctx
-                .namespace_uri_for_prefix_str(&prefix)
-                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
-                    span: ctx.convert_span(&inherit.0.span()),
-                    prefix: prefix.clone(),
-                })?
-                .to_string();
-            inc_ctx.declare_namespace(prefix, namespace_uri)?;
-        }
+        let mut inc_ctx = ctx.new_include(span, file, &inc.1)?;
 
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
@@ -1604,9 +1649,6 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        if external.1.is_some() {
-            unimplemented!("inherit");
-        }
         let path = Path::new(ctx.file().name())
             .parent()
             .expect("TODO: no parent?")
@@ -1616,7 +1658,7 @@ impl<FS: Files> Compiler<FS> {
             .get_schema(&path)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
-        let mut inc_ctx = ctx.new_include(span, file)?;
+        let mut inc_ctx = ctx.new_include(span, file, &external.1)?;
 
         match &s.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(pat) => self
@@ -1842,33 +1884,30 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<(), RelaxError> {
         match dec {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
-                match uri {
-                    NamespaceUriLiteral::Inherit => {
-                        panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                    }
-                    NamespaceUriLiteral::Uri(uri) => {
-                        if let Some(p) = prefix {
-                            ctx.declare_namespace(p.clone(), uri.as_string_value())
-                        } else {
-                            Ok(())
-                        }
-                    }
+                let uri = Self::declared_namespace_uri(ctx, uri);
+                if let Some(p) = prefix {
+                    ctx.declare_namespace(p.clone(), uri.clone())?;
                 }
+                ctx.declare_default_namespace(uri);
+                Ok(())
+            }
+            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => {
+                let uri = Self::declared_namespace_uri(ctx, uri);
+                ctx.declare_namespace(prefix.clone(), uri)
             }
-            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
-                NamespaceUriLiteral::Inherit => {
-                    panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                }
-                NamespaceUriLiteral::Uri(uri) => {
-                    ctx.declare_namespace(prefix.clone(), uri.as_string_value())
-                }
-            },
             types::Decl::Datatypes(types::DatatypesDeclaration { prefix, uri }) => {
                 ctx.declare_datatype(prefix.clone(), uri.as_string_value())
             }
         }
     }
 
+    fn declared_namespace_uri(ctx: &Context, uri: &NamespaceUriLiteral) -> String {
+        match uri {
+            NamespaceUriLiteral::Inherit => ctx.inherited_namespace_uri().to_string(),
+            NamespaceUriLiteral::Uri(uri) => uri.as_string_value(),
+        }
+    }
+
     #[allow(clippy::only_used_in_recursion)]
     fn compile_nameclass(
         &mut self,
-- 
2.43.0


From 096e8dd803bfa762392bbfca72d7c369d61b333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/58] fix: compile the body of an include in the context of
 the including file

---
 relaxng-model/src/lib.rs | 98 ++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 53 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index a5cd624..6b0162e 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -190,6 +190,8 @@ enum Context<'a> {
         inherited_namespace: String,
         datatypes: HashMap<String, String>,
     },
+    // The body of an include is part of the including file, so names in it are resolved via the
+    // parent of the include, rather than via the (included) parent
     IncludeOverrides {
         parent: &'a Context<'a>,
     },
@@ -321,18 +323,20 @@ impl<'a> Context<'a> {
         Context::Attribute { parent: self, span }
     }
 
+    /// The context which includes the file that this `Context::Include` is for
+    fn including(&self) -> &Context<'a> {
+        match self {
+            Context::Include { parent, .. } => parent,
+            _ => unreachable!(
+                "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
+            ),
+        }
+    }
+
     fn file(&self) -> Arc<codemap::File> {
         match self {
             Context::Root { file, .. } | Context::Include { file, .. } => file.clone(),
-            Context::IncludeOverrides { parent, .. } => {
-                if let Context::Include { parent, .. } = parent {
-                    parent.file()
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
-            }
+            Context::IncludeOverrides { parent } => parent.including().file(),
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -357,8 +361,8 @@ impl<'a> Context<'a> {
             } => default_namespace
                 .as_deref()
                 .unwrap_or_else(|| self.inherited_namespace_uri()),
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => parent.including().default_namespace_uri(),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.default_namespace_uri(),
@@ -373,8 +377,8 @@ impl<'a> Context<'a> {
                 inherited_namespace,
                 ..
             } => &inherited_namespace[..],
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => parent.including().inherited_namespace_uri(),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.inherited_namespace_uri(),
@@ -436,8 +440,8 @@ impl<'a> Context<'a> {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 namespaces.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => parent.including().namespace_uri_for_prefix_str(prefix),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.namespace_uri_for_prefix_str(prefix),
@@ -479,21 +483,12 @@ impl<'a> Context<'a> {
 
     fn datatype_uri_for_prefix(&self, prefix: &str) -> Option<&str> {
         match self {
-            Context::Root { datatypes, .. } => {
+            Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 // TODO: return Option, and have caller work out RelaxError value
                 datatypes.get(prefix).map(|s| &s[..])
             }
-            Context::Include {
-                parent, datatypes, ..
-            } => {
-                if let Some(uri) = datatypes.get(prefix).map(|s| &s[..]) {
-                    Some(uri)
-                } else {
-                    parent.datatype_uri_for_prefix(prefix)
-                }
-            }
-            Context::IncludeOverrides { parent }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => parent.including().datatype_uri_for_prefix(prefix),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.datatype_uri_for_prefix(prefix),
@@ -531,15 +526,12 @@ impl<'a> Context<'a> {
                     ..
                 } = parent
                 {
-                    let mut overrides = overrides.borrow_mut();
-                    if overrides.contains_key(id) {
-                        // TODO: return Err, not panic
-                        panic!("TODO: redefined override {id:?}")
-                    } else {
-                        overrides.insert(id.to_string(), (*rule.span(), false));
-                        parant_of_include.define(id, rule)?;
-                    };
-                    Ok(())
+                    // there may be more than one definition of the same name, to be combined
+                    overrides
+                        .borrow_mut()
+                        .entry(id.to_string())
+                        .or_insert((*rule.span(), false));
+                    parant_of_include.define(id, rule)
                 } else {
                     unreachable!(
                         "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
@@ -1343,12 +1335,19 @@ impl<FS: Files> Compiler<FS> {
         }
         Ok(())
     }
-    fn compile_include_div(
+    fn compile_include_contents(
         &mut self,
-        _ctx: &mut Context,
-        _div: &[types::IncludeContent],
+        ctx: &mut Context,
+        contents: &[types::IncludeContent],
     ) -> Result<(), RelaxError> {
-        unimplemented!()
+        for item in contents {
+            match item {
+                types::IncludeContent::Define(d) => self.compile_define(ctx, d)?,
+                types::IncludeContent::Div(d) => self.compile_include_contents(ctx, d)?,
+                types::IncludeContent::Annotation(_) => (),
+            }
+        }
+        Ok(())
     }
     fn compile_include(
         &mut self,
@@ -1374,25 +1373,18 @@ impl<FS: Files> Compiler<FS> {
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
             let mut override_ctx = inc_ctx.new_inc_overrides();
-            for o in overrides.iter() {
-                match o {
-                    types::IncludeContent::Define(d) => {
-                        self.compile_define(&mut override_ctx, d)
-                            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?
-                    }
-                    types::IncludeContent::Div(d) => self
-                        .compile_include_div(&mut override_ctx, &d[..])
-                        .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?,
-                    types::IncludeContent::Annotation(_) => (),
-                }
-            }
+            self.compile_include_contents(&mut override_ctx, overrides)
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         }
 
         self.compile_schema(&mut inc_ctx, s)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
 
         if let Context::Include { overrides, .. } = inc_ctx {
-            for (name, (override_span, defined)) in overrides.borrow().iter() {
+            let overrides = overrides.into_inner();
+            let mut overrides: Vec<_> = overrides.iter().collect();
+            overrides.sort_by_key(|(_, (override_span, _))| override_span.low());
+            for (name, (override_span, defined)) in overrides {
                 if !defined {
                     return Err(RelaxError::OverrideMissingFromInclude {
                         name: name.clone(),
-- 
2.43.0


From fc715160ae18da7a90646dc9f0ee41116d37bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 15/58] fix: compile external patterns and nested grammars in
 their own context

Declarations of an external schema weren't processed, paths in it were
resolved against the referring file, its references to itself not
detected, and references to the start of a nested grammar were left
undefined.
---
 relaxng-model/src/lib.rs | 140 ++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 55 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 6b0162e..6d6416a 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -16,7 +16,7 @@ use std::fs::File;
 use std::io;
 use std::io::Read;
 use std::ops::Range;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::sync::Arc;
 
@@ -675,24 +675,48 @@ impl<'a> Context<'a> {
         span: codemap::Span,
         this_file: Arc<codemap::File>,
     ) -> Result<(), RelaxError> {
-        match self {
-            Context::Root { .. } => Ok(()),
+        let (file, parent) = match self {
+            Context::Root { file, .. } => (file, None),
+            Context::Include { parent, file, .. } => (file, Some(parent)),
             Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.check_include(span, this_file),
-            Context::Include { parent, file, .. } => {
-                if this_file.name() == file.name() {
-                    return Err(RelaxError::RecursiveInclude {
-                        name: this_file.name().to_string(),
-                        span,
-                    });
+            | Context::Attribute { parent, .. } => return parent.check_include(span, this_file),
+        };
+        if is_same_file(&this_file, file) {
+            return Err(RelaxError::RecursiveInclude {
+                name: this_file.name().to_string(),
+                span,
+            });
+        }
+        match parent {
+            Some(parent) => parent.check_include(span, this_file),
+            None => Ok(()),
+        }
+    }
+}
+
+/// A recursive reference to a file may well involve a different path each time, when that path
+/// contains '..'
+fn is_same_file(a: &codemap::File, b: &codemap::File) -> bool {
+    fn normalize(name: &str) -> PathBuf {
+        let mut path = PathBuf::new();
+        for c in Path::new(name).components() {
+            match c {
+                Component::CurDir => (),
+                Component::ParentDir
+                    if matches!(path.components().next_back(), Some(Component::Normal(_))) =>
+                {
+                    path.pop();
                 }
-                parent.check_include(span, this_file)
+                c => path.push(c),
             }
         }
+        path
     }
+    a.name() == b.name()
+        || (normalize(a.name()) == normalize(b.name()) && a.source() == b.source())
 }
 
 pub trait Files {
@@ -1651,36 +1675,23 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file, &external.1)?;
+        self.compile_external_schema(&mut inc_ctx, file_span, &s)
+            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))
+    }
 
-        match &s.pattern_or_grammar {
-            types::PatternOrGrammar::Pattern(pat) => self
-                .compile_pattern(&mut inc_ctx, pat)
-                .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),
+    fn compile_external_schema(
+        &mut self,
+        ctx: &mut Context,
+        file_span: codemap::Span,
+        schema: &Schema,
+    ) -> Result<model::Pattern, RelaxError> {
+        for dec in schema.decls.iter() {
+            self.compile_declaration(ctx, dec)?;
+        }
+        match &schema.pattern_or_grammar {
+            types::PatternOrGrammar::Pattern(pat) => self.compile_pattern(ctx, pat),
             types::PatternOrGrammar::Grammar(types::GrammarPattern { span: _, content }) => {
-                let mut child_ctx = ctx.new_grammar();
-                for g in content {
-                    self.compile_grammar_content_item(&mut child_ctx, g)?;
-                }
-                for (name, r) in child_ctx.ref_iter() {
-                    if r.borrow().is_none() {
-                        // TODO: retain span information for references so that we don't report bogus data
-                        return Err(RelaxError::UndefinedReference {
-                            span: child_ctx.convert_span(&(0..0)),
-                            identifier: name,
-                        });
-                    }
-                }
-                if let Some(r) = child_ctx.get_ref("start") {
-                    r.borrow_mut()
-                        .take()
-                        .map(|d| match d {
-                            model::DefineRule::AssignCombine(_, _, p)
-                            | model::DefineRule::CombineOnly(_, _, p) => p,
-                        })
-                        .ok_or(RelaxError::StartRuleNotDefined { span: file_span })
-                } else {
-                    Err(RelaxError::StartRuleNotDefined { span: file_span })
-                }
+                self.compile_nested_grammar(ctx, file_span, content)
             }
         }
     }
@@ -1690,24 +1701,43 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         grammar: &types::GrammarPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        let mut child_ctx = ctx.new_grammar();
+        let span = ctx.convert_span(&grammar.span);
+        self.compile_nested_grammar(ctx, span, &grammar.content)
+    }
 
-        let content = &grammar.content[..];
+    fn compile_nested_grammar(
+        &mut self,
+        ctx: &mut Context,
+        span: codemap::Span,
+        content: &[types::GrammarContent],
+    ) -> Result<model::Pattern, RelaxError> {
+        let mut child_ctx = ctx.new_grammar();
         self.compile_grammar_contents(&mut child_ctx, content)?;
-        if let Some(r) = child_ctx.get_ref("start") {
-            r.borrow_mut()
-                .take()
-                .map(|d| match d {
-                    model::DefineRule::AssignCombine(_, _, p)
-                    | model::DefineRule::CombineOnly(_, _, p) => p,
-                })
-                .ok_or_else(|| RelaxError::StartRuleNotDefined {
-                    span: ctx.convert_span(&grammar.span),
-                })
-        } else {
-            Err(RelaxError::StartRuleNotDefined {
-                span: ctx.convert_span(&grammar.span),
-            })
+        for (name, r) in child_ctx.ref_iter() {
+            if r.borrow().is_none() {
+                // TODO: retain span information for references so that we don't report bogus data
+                return Err(RelaxError::UndefinedReference {
+                    span,
+                    identifier: name,
+                });
+            }
+        }
+        let start = child_ctx
+            .get_ref("start")
+            .ok_or(RelaxError::StartRuleNotDefined { span })?;
+        drop(child_ctx);
+        match Rc::try_unwrap(start).map(RefCell::into_inner) {
+            Ok(
+                Some(model::DefineRule::AssignCombine(_, _, p))
+                | Some(model::DefineRule::CombineOnly(_, _, p)),
+            ) => Ok(p),
+            Ok(None) => Err(RelaxError::StartRuleNotDefined { span }),
+            // the grammar has references to its own start
+            Err(start) => Ok(Pattern::Ref(
+                span,
+                "start".to_string(),
+                model::PatRef(start),
+            )),
         }
     }
 
-- 
2.43.0


From 4b80776b475e459525058b47a825a8df9ba02b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 16/58] fix: reject recursion via several definitions, and
 undefined references in nested grammars

---
 relaxng-model/src/lib.rs | 209 ++++++++++++++++++++++++++-------------
 1 file changed, 143 insertions(+), 66 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 6d6416a..c8598cf 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -440,7 +440,9 @@ impl<'a> Context<'a> {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 namespaces.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent } => parent.including().namespace_uri_for_prefix_str(prefix),
+            Context::IncludeOverrides { parent } => {
+                parent.including().namespace_uri_for_prefix_str(prefix)
+            }
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -487,7 +489,9 @@ impl<'a> Context<'a> {
                 // TODO: return Option, and have caller work out RelaxError value
                 datatypes.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent } => parent.including().datatype_uri_for_prefix(prefix),
+            Context::IncludeOverrides { parent } => {
+                parent.including().datatype_uri_for_prefix(prefix)
+            }
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -591,6 +595,14 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The (alphabetically) first name that is referenced in this grammar, but not defined
+    fn undefined_name(&self) -> Option<String> {
+        self.ref_iter()
+            .filter(|(_, r)| r.borrow().is_none())
+            .map(|(name, _)| name)
+            .min()
+    }
+
     fn acquire_ref(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
         self.check_ref_recursion(ref_id)?;
         self.acquire_ref_impl(ref_id)
@@ -715,8 +727,7 @@ fn is_same_file(a: &codemap::File, b: &codemap::File) -> bool {
         }
         path
     }
-    a.name() == b.name()
-        || (normalize(a.name()) == normalize(b.name()) && a.source() == b.source())
+    a.name() == b.name() || (normalize(a.name()) == normalize(b.name()) && a.source() == b.source())
 }
 
 pub trait Files {
@@ -770,69 +781,35 @@ impl<FS: Files> Compiler<FS> {
         let (file, schema) = self.get_schema(name)?;
         let mut ctx = Context::new(file.clone());
         self.compile_schema(&mut ctx, schema)?;
-        for (name, r) in ctx.ref_iter() {
-            if r.borrow().is_none() {
-                //println!("Undefined {:?} :(", name);
-                return Err(RelaxError::UndefinedReference {
-                    span: file.span.subspan(0, 0),
-                    identifier: name,
-                });
-            } else {
-                //println!("Defined {:?} => :)", name);
+        let mut rules: Vec<_> = ctx.ref_iter().collect();
+        // report errors in the order of the definitions
+        rules.sort_by_key(|(name, r)| {
+            (
+                r.borrow().as_ref().map(|rule| rule.span().low()),
+                name.clone(),
+            )
+        });
+        for (_, r) in rules.iter() {
+            if let Some(rule) = r.borrow().as_ref() {
+                check_references_defined(&mut HashSet::new(), rule.pattern())?;
             }
         }
+        if let Some(identifier) = ctx.undefined_name() {
+            return Err(RelaxError::UndefinedReference {
+                span: file.span.subspan(0, 0),
+                identifier,
+            });
+        }
         if let Some(start) = ctx.get_ref("start") {
-            let mut seen = HashSet::new();
-            // TODO: this is a temporary hack to detect bad references; do this in a better way?
-            self.check(&mut seen, start.borrow().as_ref().unwrap().pattern())?;
+            if let Some(rule) = start.borrow().as_ref() {
+                RecursionCheck::default().check(rule.pattern())?;
+            }
             Ok(start)
         } else {
             Err(RelaxError::StartRuleNotDefined { span: file.span })
         }
     }
 
-    #[allow(clippy::only_used_in_recursion)]
-    fn check(&self, seen: &mut HashSet<usize>, patt: &model::Pattern) -> Result<(), RelaxError> {
-        match patt {
-            Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
-                for p in v {
-                    self.check(seen, p)?
-                }
-            }
-            Pattern::Mixed(p)
-            | Pattern::Optional(p)
-            | Pattern::ZeroOrMore(p)
-            | Pattern::OneOrMore(p)
-            | Pattern::Attribute(_, p)
-            | Pattern::Element(_, p)
-            | Pattern::List(p) => self.check(seen, p)?,
-            Pattern::Empty
-            | Pattern::Text
-            | Pattern::NotAllowed
-            | Pattern::DatatypeValue { .. } => {}
-            Pattern::Ref(span, name, def) => {
-                let ptr = def.0.as_ptr() as usize;
-                if !seen.contains(&ptr) {
-                    seen.insert(ptr);
-                    if let Some(rule) = def.0.borrow().as_ref() {
-                        self.check(seen, rule.pattern())?
-                    } else {
-                        return Err(RelaxError::UndefinedReference {
-                            span: *span,
-                            identifier: name.to_string(),
-                        });
-                    }
-                }
-            }
-            Pattern::DatatypeName { except, .. } => {
-                if let Some(e) = except.as_ref() {
-                    self.check(seen, e)?;
-                }
-            }
-        }
-        Ok(())
-    }
-
     pub fn dump_diagnostic(&self, err: &RelaxError) {
         let mut emitter = codemap_diagnostic::Emitter::stderr(
             codemap_diagnostic::ColorConfig::Always,
@@ -1713,14 +1690,9 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<model::Pattern, RelaxError> {
         let mut child_ctx = ctx.new_grammar();
         self.compile_grammar_contents(&mut child_ctx, content)?;
-        for (name, r) in child_ctx.ref_iter() {
-            if r.borrow().is_none() {
-                // TODO: retain span information for references so that we don't report bogus data
-                return Err(RelaxError::UndefinedReference {
-                    span,
-                    identifier: name,
-                });
-            }
+        if let Some(identifier) = child_ctx.undefined_name() {
+            // TODO: retain span information for references so that we don't report bogus data
+            return Err(RelaxError::UndefinedReference { span, identifier });
         }
         let start = child_ctx
             .get_ref("start")
@@ -1993,6 +1965,111 @@ impl<FS: Files> Compiler<FS> {
     }
 }
 
+/// Calls the given function for each pattern that is directly contained in the given one; patterns
+/// which are merely referenced don't count
+fn each_child<'p>(
+    patt: &'p Pattern,
+    f: &mut dyn FnMut(&'p Pattern) -> Result<(), RelaxError>,
+) -> Result<(), RelaxError> {
+    match patt {
+        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => v.iter().try_for_each(f),
+        Pattern::Mixed(p)
+        | Pattern::Optional(p)
+        | Pattern::ZeroOrMore(p)
+        | Pattern::OneOrMore(p)
+        | Pattern::Attribute(_, p)
+        | Pattern::Element(_, p)
+        | Pattern::List(p) => f(p),
+        Pattern::DatatypeName { except, .. } => match except {
+            Some(e) => f(e),
+            None => Ok(()),
+        },
+        Pattern::Empty
+        | Pattern::Text
+        | Pattern::NotAllowed
+        | Pattern::DatatypeValue { .. }
+        | Pattern::Ref(..) => Ok(()),
+    }
+}
+
+fn check_references_defined(seen: &mut HashSet<usize>, patt: &Pattern) -> Result<(), RelaxError> {
+    if let Pattern::Ref(span, name, def) = patt {
+        match def.0.borrow().as_ref() {
+            Some(rule) if seen.insert(def.0.as_ptr() as usize) => {
+                check_references_defined(seen, rule.pattern())
+            }
+            Some(_) => Ok(()),
+            None => Err(RelaxError::UndefinedReference {
+                span: *span,
+                identifier: name.to_string(),
+            }),
+        }
+    } else {
+        each_child(patt, &mut |p| check_references_defined(seen, p))
+    }
+}
+
+/// Checks that no definition refers to itself, via any number of other definitions, other than from
+/// within the content of an element.
+#[derive(Default)]
+struct RecursionCheck {
+    /// definitions which are being checked currently
+    active: HashSet<usize>,
+    done: HashSet<usize>,
+    /// definitions that have elements, the content of which is yet to be checked
+    pending: Vec<model::PatRef>,
+}
+impl RecursionCheck {
+    fn check(mut self, start: &Pattern) -> Result<(), RelaxError> {
+        self.check_pattern(start)?;
+        self.check_content(start)?;
+        while let Some(def) = self.pending.pop() {
+            if let Some(rule) = def.0.borrow().as_ref() {
+                self.check_content(rule.pattern())?;
+            }
+        }
+        Ok(())
+    }
+
+    /// Follows references, other than those within elements
+    fn check_pattern(&mut self, patt: &Pattern) -> Result<(), RelaxError> {
+        match patt {
+            Pattern::Element(..) => Ok(()),
+            Pattern::Ref(span, name, def) => {
+                let ptr = def.0.as_ptr() as usize;
+                let rule = def.0.borrow();
+                let Some(rule) = rule.as_ref() else {
+                    return Ok(());
+                };
+                if self.active.contains(&ptr) {
+                    return Err(RelaxError::RecursiveReference {
+                        ref_id: name.clone(),
+                        ref_span: *span,
+                        def_id: name.clone(),
+                        def_span: *rule.span(),
+                    });
+                }
+                if self.done.insert(ptr) {
+                    self.active.insert(ptr);
+                    self.check_pattern(rule.pattern())?;
+                    self.active.remove(&ptr);
+                    self.pending.push(def.clone());
+                }
+                Ok(())
+            }
+            _ => each_child(patt, &mut |p| self.check_pattern(p)),
+        }
+    }
+
+    /// Checks the content of each element in the given pattern
+    fn check_content(&mut self, patt: &Pattern) -> Result<(), RelaxError> {
+        if let Pattern::Element(_, content) = patt {
+            self.check_pattern(content)?;
+        }
+        each_child(patt, &mut |p| self.check_content(p))
+    }
+}
+
 #[derive(Copy, Clone, PartialEq, Debug)]
 enum ElemAttr {
     Element,
-- 
2.43.0


From 04c2ea62327043bceee7b27dd023d051e83ff719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 17/58] fix: don't panic when reporting schema errors

---
 relaxng-model/src/lib.rs  | 68 +++++++++++++++++++++++++++++++++++----
 relaxng-syntax/src/xml.rs | 23 ++++++++-----
 2 files changed, 76 insertions(+), 15 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c8598cf..e9b66da 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -66,6 +66,13 @@ impl Syntax {
             Syntax::Compact => {
                 let input = LocatedSpan::new(file.source());
                 let schema = compact::schema(input).map_err(|e| match e {
+                    nom::Err::Incomplete(_) => RelaxError::Parse(
+                        file.span.subspan(
+                            file.span.high() - file.span.low(),
+                            file.span.high() - file.span.low(),
+                        ),
+                        nom::error::ErrorKind::Eof,
+                    ),
                     nom::Err::Error(Error { input, code }) => RelaxError::Parse(
                         file.span.subspan(
                             input.location_offset() as _,
@@ -80,7 +87,6 @@ impl Syntax {
                         ),
                         code,
                     ),
-                    nom::Err::Incomplete(_n) => unimplemented!("{:?}", e),
                 })?;
                 Ok(schema)
             }
@@ -909,7 +915,12 @@ impl<FS: Files> Compiler<FS> {
                         spans: vec![label],
                     }
                 }
-                _ => panic!("{err:?}"),
+                relaxng_syntax::xml::Error::Todo(msg) => codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("Not yet supported: {msg}"),
+                    code: None,
+                    spans: vec![],
+                },
             },
             RelaxError::UndefinedNamespacePrefix { span, prefix } => {
                 let label = codemap_diagnostic::SpanLabel {
@@ -972,8 +983,15 @@ impl<FS: Files> Compiler<FS> {
                     XsdDatatypeError::Facet { type_name, facet } => {
                         let mut labels = vec![];
                         match facet {
-                            FacetError::ConflictingFacet(_name) => {
-                                unimplemented!("Support for ConflictingFacet")
+                            FacetError::ConflictingFacet(name) => {
+                                return codemap_diagnostic::Diagnostic {
+                                    level: codemap_diagnostic::Level::Error,
+                                    message: format!(
+                                        "Conflicting facets for {type_name} type: {name}"
+                                    ),
+                                    code: None,
+                                    spans: vec![],
+                                };
                             }
                             FacetError::InvalidInt(span, msg) => {
                                 labels.push(codemap_diagnostic::SpanLabel {
@@ -1222,7 +1240,43 @@ impl<FS: Files> Compiler<FS> {
                     spans: vec![label],
                 }
             }
-            _ => panic!("{err:?}"),
+            RelaxError::NamespacePrefixAlreadyDefined { span, prefix } => {
+                let label = codemap_diagnostic::SpanLabel {
+                    span: *span,
+                    style: codemap_diagnostic::SpanStyle::Primary,
+                    label: None,
+                };
+                codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("The namespace prefix {prefix:?} is already defined"),
+                    code: None,
+                    spans: vec![label],
+                }
+            }
+            RelaxError::DatatypePrefixAlreadyDefined(prefix) => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("The datatype prefix {prefix:?} is already defined"),
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::DuplicateParameterName(name) => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("Duplicate parameter {name:?}"),
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::StartRuleRedefined => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: "The 'start' rule is defined more than once".to_string(),
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::IncompatibleCombination { file, .. } => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("Incompatible combination of definitions in {file:?}"),
+                code: None,
+                spans: vec![],
+            },
         }
     }
 
@@ -1357,7 +1411,7 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<(), RelaxError> {
         let path = Path::new(ctx.file().name())
             .parent()
-            .expect("TODO: no parent?")
+            .unwrap_or_else(|| Path::new(""))
             .join(inc.0.as_string_value());
         let span = ctx
             .file()
@@ -1644,7 +1698,7 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<model::Pattern, RelaxError> {
         let path = Path::new(ctx.file().name())
             .parent()
-            .expect("TODO: no parent?")
+            .unwrap_or_else(|| Path::new(""))
             .join(external.0.as_string_value());
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 33d265c..aedceb0 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -17,14 +17,21 @@ pub enum Error {
 pub fn parse(text: &str) -> Result<Schema> {
     let doc = roxmltree::Document::parse(text).map_err(|e| {
         // Gah!  The interface we want to expose is in terms of byte-offset + len pairs, but
-        // the errors from roxmltree give us
-        let (off, len) = text
-            .lines()
-            .take(e.pos().row as _)
-            .fold((0, 0), |(acc, _), line| (acc + line.len(), line.len()));
-
-        let start = off + e.pos().col as usize;
-        let end = len - e.pos().col as usize;
+        // the errors from roxmltree give us the (one-based) row, and column in characters
+        let pos = e.pos();
+        let line_start: usize = text
+            .split_inclusive('\n')
+            .take(pos.row.saturating_sub(1) as usize)
+            .map(str::len)
+            .sum();
+        let line = text[line_start..].lines().next().unwrap_or("");
+        let start = line_start
+            + line
+                .chars()
+                .take(pos.col.saturating_sub(1) as usize)
+                .map(char::len_utf8)
+                .sum::<usize>();
+        let end = line_start + line.len();
         Error::Xml(start..end, e.to_string())
     })?;
     Ok(Schema {
-- 
2.43.0


From 14b966fc9a92dc1caed74ce7afe9a7917309834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 18/58] fix: report conflicting facets, rather than panicking

---
 relaxng-model/src/datatype/xsd.rs | 52 +++++++++++++++----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 4316cb1..1e044a2 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -274,32 +274,24 @@ impl LengthFacet {
     }
 
     fn merge(&mut self, other: LengthFacet) -> Result<(), FacetError> {
-        *self = match self {
-            LengthFacet::Unbounded => other,
-            LengthFacet::MinLength(min) => match other {
-                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
-                LengthFacet::MinLength(_min) => {
-                    return Err(FacetError::ConflictingFacet("minLength"));
-                }
-                LengthFacet::MaxLength(max) => {
-                    if *min > max {
-                        return Err(FacetError::ConflictingFacet(
-                            "minLength greater than maxLength",
-                        ));
-                    }
-                    LengthFacet::MinMaxLength(*min, max)
+        *self = match (&*self, other) {
+            (LengthFacet::Unbounded, other) => other,
+            (&LengthFacet::MinLength(min), LengthFacet::MaxLength(max))
+            | (&LengthFacet::MaxLength(max), LengthFacet::MinLength(min)) => {
+                if min > max {
+                    return Err(FacetError::ConflictingFacet(
+                        "minLength greater than maxLength",
+                    ));
                 }
-                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
-            },
-            LengthFacet::MaxLength(_) => {
-                unimplemented!()
+                LengthFacet::MinMaxLength(min, max)
             }
-            LengthFacet::MinMaxLength(_, _) => {
-                unimplemented!()
+            (_, LengthFacet::MinLength(_)) => {
+                return Err(FacetError::ConflictingFacet("minLength"));
             }
-            LengthFacet::Length(_) => {
-                unimplemented!()
+            (_, LengthFacet::MaxLength(_)) => {
+                return Err(FacetError::ConflictingFacet("maxLength"));
             }
+            (_, _) => return Err(FacetError::ConflictingFacet("length")),
         };
         Ok(())
     }
@@ -433,7 +425,9 @@ where
         }
         self.min = match self.min {
             Min::Unbounded => Min::Inclusive(val),
-            Min::Inclusive(_) => unreachable!(),
+            Min::Inclusive(_) => {
+                return Err(FacetError::ConflictingFacet("duplicate minInclusive"));
+            }
             Min::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "minInclusive conflicts with minExclusive",
@@ -467,7 +461,9 @@ where
                     "minExclusive conflicts with minInclusive",
                 ));
             }
-            Min::Exclusive(_) => unreachable!(),
+            Min::Exclusive(_) => {
+                return Err(FacetError::ConflictingFacet("duplicate minExclusive"));
+            }
         };
         Ok(())
     }
@@ -491,7 +487,9 @@ where
         }
         self.max = match self.max {
             Max::Unbounded => Max::Inclusive(val),
-            Max::Inclusive(_) => unreachable!(),
+            Max::Inclusive(_) => {
+                return Err(FacetError::ConflictingFacet("duplicate maxInclusive"));
+            }
             Max::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "maxInclusive conflicts with maxExclusive",
@@ -525,7 +523,9 @@ where
                     "maxExclusive conflicts with maxInclusive",
                 ));
             }
-            Max::Exclusive(_) => unreachable!(),
+            Max::Exclusive(_) => {
+                return Err(FacetError::ConflictingFacet("duplicate maxExclusive"));
+            }
         };
         Ok(())
     }
-- 
2.43.0


From e09972168cad8bf6dc35f3a45bcd78b04fb616bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 19/58] fix: don't panic on values of datatypes that aren't
 supported

---
 relaxng-model/src/datatype/xsd.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 1e044a2..301b1c3 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -773,6 +773,11 @@ impl Compiler {
         match name {
             "string" => Ok(XsdDatatypeValues::String(value.to_string())),
             "token" => Ok(XsdDatatypeValues::Token(normalize_whitespace(value))),
+            // TODO: look up the prefix
+            "QName" if value.contains(':') => Err(XsdDatatypeError::UnsupportedDatatype {
+                span: ctx.convert_span(span),
+                name: name.to_string(),
+            }),
             "QName" => Ok(XsdDatatypeValues::QName(
                 QNameVal::try_from_val(value).map_err(|_| {
                     XsdDatatypeError::InvalidValueOfType {
@@ -781,7 +786,10 @@ impl Compiler {
                     }
                 })?,
             )),
-            _ => unimplemented!("{:?} not yet supported", name),
+            _ => Err(XsdDatatypeError::UnsupportedDatatype {
+                span: ctx.convert_span(span),
+                name: name.to_string(),
+            }),
         }
     }
 
@@ -1451,17 +1459,11 @@ trait TryFromVal: Sized {
 pub struct QNameVal(String);
 impl TryFromVal for QNameVal {
     fn try_from_val(val: &str) -> Result<Self, ()> {
-        if let Some(pos) = val.find(':') {
-            let prefix = &val[0..pos];
-            let localname = &val[pos + 1..];
-            if is_valid_ncname(prefix) && is_valid_ncname(localname) {
-                unimplemented!("Need to be able to look up prefix {:?}", prefix);
-            //Ok(QNameVal(val.to_string()))
-            } else {
-                Err(())
-            }
-        } else if is_valid_ncname(val) {
-            Ok(QNameVal(val.to_string()))
+        // TODO: resolve prefixes; so far, only values without one may be specified in a schema, and a
+        //       value having a prefix is not equal to any of those
+        let val = normalize_whitespace(val);
+        if is_valid_ncname(&val) {
+            Ok(QNameVal(val))
         } else {
             Err(())
         }
-- 
2.43.0


From e0dcd3795053736648ea6c4df54c9a170e0699cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 20/58] fix: detect conflicting exclusive facets regardless of
 their order

---
 relaxng-model/src/datatype/xsd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 301b1c3..b947928 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -440,16 +440,16 @@ where
         match &self.max {
             Max::Unbounded => {}
             Max::Inclusive(max) => {
-                if val > *max {
+                if val >= *max {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxInclusive",
+                        "minExclusive conflicts with maxInclusive",
                     ));
                 }
             }
             Max::Exclusive(max) => {
                 if val >= *max {
                     return Err(FacetError::ConflictingFacet(
-                        "minInclusive conflicts with maxExclusive",
+                        "minExclusive conflicts with maxExclusive",
                     ));
                 }
             }
@@ -502,7 +502,7 @@ where
         match &self.min {
             Min::Unbounded => {}
             Min::Inclusive(min) => {
-                if *min > val {
+                if *min >= val {
                     return Err(FacetError::ConflictingFacet(
                         "minInclusive conflicts with maxInclusive",
                     ));
-- 
2.43.0


From afe4a928f35085835296ca71a8de19dc21c0e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 21/58] fix: match the pattern facet against the whole of a
 value

---
 relaxng-model/src/datatype/xsd.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index b947928..cd39aa1 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -535,6 +535,7 @@ where
     }
 }
 
+/// The regular expression matches only whole values
 #[derive(Clone)]
 pub struct PatternFacet(String, regex::Regex);
 impl PartialEq for PatternFacet {
@@ -1445,8 +1446,11 @@ impl Compiler {
     }
 
     fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
-        regex::Regex::new(&param.3.as_string_value())
-            .map(|re| PatternFacet(param.3.as_string_value(), re))
+        let pattern = param.3.as_string_value();
+        // check the pattern itself prior to wrapping it up
+        regex::Regex::new(&pattern)
+            .and_then(|_| regex::Regex::new(&format!(r"^(?:{pattern})$")))
+            .map(|re| PatternFacet(pattern, re))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
 }
-- 
2.43.0


From f1f0bdb9020f5116b110dd51b8315dad489d76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 22/58] fix: apply each one of several pattern facets

---
 relaxng-model/src/datatype/xsd.rs | 98 ++++++++++++++++---------------
 1 file changed, 52 insertions(+), 46 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index cd39aa1..b0b3b20 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -79,37 +79,37 @@ impl super::Datatype for XsdDatatypes {
                 i16::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedShort(min_max, patt) => {
                 u16::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Long(min_max, patt) => {
                 i64::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Int(min_max, patt) => {
                 i32::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
                 num_bigint::BigInt::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
                 num_bigint::BigUint::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
                 min_max,
@@ -120,7 +120,7 @@ impl super::Datatype for XsdDatatypes {
                 bigdecimal::BigDecimal::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(_len) => {
                 unimplemented!()
@@ -134,46 +134,45 @@ impl super::Datatype for XsdDatatypes {
             }
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
                 chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
                 DATETIME_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(patt) => {
                 value.parse::<f64>().is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
                 uriparse::URIReference::try_from(value).is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Language(patt) => {
-                LANG_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                LANG_RE.is_match(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Boolean(patt) => {
                 (value == "true" || value == "false" || value == "1" || value == "0")
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedInt(min_max, patt) => {
                 u32::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedLong(min_max, patt) => {
                 u64::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
+            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
         }
     }
 }
@@ -535,18 +534,20 @@ where
     }
 }
 
-/// The regular expression matches only whole values
+/// The regular expression matches only whole values.  When a datatype has several patterns then all of
+/// them have to match.
 #[derive(Clone)]
-pub struct PatternFacet(String, regex::Regex);
+pub struct PatternFacet(String, regex::Regex, Option<Box<PatternFacet>>);
 impl PartialEq for PatternFacet {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.2 == other.2
     }
 }
 impl Eq for PatternFacet {}
 impl std::hash::Hash for PatternFacet {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.hash(state)
+        self.0.hash(state);
+        self.2.hash(state)
     }
 }
 impl fmt::Debug for PatternFacet {
@@ -556,7 +557,7 @@ impl fmt::Debug for PatternFacet {
 }
 impl PatternFacet {
     fn is_valid(&self, value: &str) -> bool {
-        self.1.is_match(value)
+        self.1.is_match(value) && self.2.as_ref().is_none_or(|p| p.is_valid(value))
     }
 }
 
@@ -807,7 +808,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -832,7 +833,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -855,7 +856,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i16(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i16(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i16(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -882,7 +883,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u16(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u16(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u16(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -905,7 +906,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -928,7 +929,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i32(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i32(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i32(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -950,7 +951,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::bigint(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::bigint(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigint(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -977,7 +978,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::biguint(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::biguint(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::biguint(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1002,7 +1003,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigdecimal(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 "fractionDigits" => fraction_digits = Some(Self::u16(ctx, param)?),
                 "totalDigits" => total_digits = Some(Self::u16(ctx, param)?),
                 _ => {
@@ -1031,7 +1032,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::f64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::f64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::f64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1129,7 +1130,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1147,7 +1148,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1165,7 +1166,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1183,7 +1184,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1201,7 +1202,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1219,7 +1220,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1246,7 +1247,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u32(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u32(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u32(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1273,7 +1274,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1291,7 +1292,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1309,7 +1310,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1445,12 +1446,17 @@ impl Compiler {
             })
     }
 
-    fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
+    fn pattern(
+        &self,
+        ctx: &Context,
+        param: &types::Param,
+        facet: &mut Option<PatternFacet>,
+    ) -> Result<(), FacetError> {
         let pattern = param.3.as_string_value();
         // check the pattern itself prior to wrapping it up
         regex::Regex::new(&pattern)
             .and_then(|_| regex::Regex::new(&format!(r"^(?:{pattern})$")))
-            .map(|re| PatternFacet(pattern, re))
+            .map(|re| *facet = Some(PatternFacet(pattern, re, facet.take().map(Box::new))))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
 }
-- 
2.43.0


From 441af6365aef94163683b58da5a2aa5df327b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 23/58] fix: process whitespace per datatype, and support
 xsd:token, NMTOKEN and NMTOKENS

---
 relaxng-model/src/datatype/xsd.rs | 40 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index b0b3b20..a034f31 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -71,10 +71,21 @@ impl super::Datatype for XsdDatatypes {
     fn is_valid(&self, value: &str) -> bool {
         match self {
             XsdDatatypes::NormalizedString(str_facets) => {
-                let normal_val = super::relax::normalize_whitespace(value);
-                str_facets.is_valid(&normal_val)
+                str_facets.is_valid(&value.replace(['\t', '\n', '\r'], " "))
             }
             XsdDatatypes::String(str_facets) => str_facets.is_valid(value),
+            // whitespace is collapsed for all of the other datatypes
+            _ => self.is_valid_normalized(&normalize_whitespace(value)),
+        }
+    }
+}
+
+impl XsdDatatypes {
+    fn is_valid_normalized(&self, value: &str) -> bool {
+        match self {
+            XsdDatatypes::NormalizedString(str_facets) | XsdDatatypes::String(str_facets) => {
+                str_facets.is_valid(value)
+            }
             XsdDatatypes::Short(min_max, patt) => {
                 i16::from_str(value)
                     .ok()
@@ -122,16 +133,15 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::NmTokens(_len) => {
-                unimplemented!()
-            }
-            XsdDatatypes::NmToken(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmTokens(len) => {
+                let count = value.split_whitespace().count();
+                count > 0
+                    && value.split_whitespace().all(is_valid_nmtoken)
+                    && len.is_valid_len(count)
             }
+            XsdDatatypes::NmToken(len) => len.is_valid(value) && is_valid_nmtoken(value),
             XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
-            XsdDatatypes::Token(_len) => {
-                unimplemented!()
-            }
+            XsdDatatypes::Token(len) => len.is_valid(value),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
@@ -184,6 +194,11 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+fn is_valid_nmtoken(text: &str) -> bool {
+    // what's valid after the initial character of an NCName is a name character, as is ':'
+    !text.is_empty() && is_valid_ncname(&format!("_{}", text.replace(':', "_")))
+}
+
 #[derive(PartialEq, Eq, Hash, Clone, Debug)]
 pub struct StringFacets {
     len: LengthFacet,
@@ -262,7 +277,10 @@ pub enum LengthFacet {
 }
 impl LengthFacet {
     fn is_valid(&self, value: &str) -> bool {
-        let actual = value.chars().count();
+        self.is_valid_len(value.chars().count())
+    }
+
+    fn is_valid_len(&self, actual: usize) -> bool {
         match self {
             LengthFacet::Unbounded => true,
             LengthFacet::MinLength(min) => *min <= actual,
-- 
2.43.0


From cd7b04ff6a2d8fbda0a8eb1477024798a1881b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 24/58] fix: check values against the lexical space, and all
 facets, of their XSD datatype

---
 relaxng-model/src/datatype/xsd.rs | 116 ++++++++++++++++++++++--------
 1 file changed, 88 insertions(+), 28 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index a034f31..cad4d54 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -28,10 +28,18 @@ impl super::Datatype for XsdDatatypeValues {
     }
 }
 
+const DATE: &str = r"-?(?P<year>[1-9][0-9]{4,}|[0-9]{4})-(?P<month>[0-9]{2})-(?P<day>[0-9]{2})";
+const TIME: &str = r"(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?|24:00:00(\.0+)?)";
+const TIMEZONE: &str = r"(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?";
+
 lazy_static! {
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
-    static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
-    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
+    static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$").unwrap();
+    static ref DOUBLE_RE: regex::Regex = regex::Regex::new(r"^([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|-?INF|NaN)$").unwrap();
+    static ref DATE_RE: regex::Regex = regex::Regex::new(&format!("^{DATE}{TIMEZONE}$")).unwrap();
+    static ref DATETIME_RE: regex::Regex = regex::Regex::new(&format!("^{DATE}T{TIME}{TIMEZONE}$")).unwrap();
+    // there must be at least one component, and at least one that follows any 'T'
+    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^-?P([0-9]+Y)?([0-9]+M)?([0-9]+D)?(T([0-9]+H)?([0-9]+M)?([0-9]+(\.[0-9]+)?S)?)?$").unwrap();
 }
 
 // TODO: actually apply all required facets to each datatype
@@ -53,7 +61,7 @@ pub enum XsdDatatypes {
         fraction_digits: Option<u16>,
         total_digits: Option<u16>,
     },
-    Double(Option<PatternFacet>),
+    Double(MinMaxFacet<Double>, Option<PatternFacet>),
     NmTokens(LengthFacet),
     NmToken(LengthFacet),
     NcName(LengthFacet),
@@ -111,51 +119,55 @@ impl XsdDatatypes {
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
-                num_bigint::BigInt::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                parse_integer(value).is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
-                num_bigint::BigUint::from_str(value)
-                    .ok()
+                parse_integer(value)
+                    .filter(|v| v.sign() == num_bigint::Sign::Plus)
+                    .and_then(|v| v.to_biguint())
                     .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
                 min_max,
                 pattern: pat,
-                fraction_digits: _,
-                total_digits: _,
+                fraction_digits,
+                total_digits,
             } => {
-                bigdecimal::BigDecimal::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                DECIMAL_RE.is_match(value)
+                    && has_valid_digits(value, *fraction_digits, *total_digits)
+                    && bigdecimal::BigDecimal::from_str(value)
+                        .ok()
+                        .is_some_and(|v| min_max.is_valid(&v))
                     && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(len) => {
-                let count = value.split_whitespace().count();
-                count > 0
-                    && value.split_whitespace().all(is_valid_nmtoken)
-                    && len.is_valid_len(count)
+                value.split(' ').all(is_valid_nmtoken) && len.is_valid_len(value.split(' ').count())
             }
             XsdDatatypes::NmToken(len) => len.is_valid(value) && is_valid_nmtoken(value),
             XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
             XsdDatatypes::Token(len) => len.is_valid(value),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
+                    && !value.ends_with(['P', 'T'])
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
-                chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
+                DATE_RE
+                    .captures(value)
+                    .is_some_and(|date| is_valid_date(&date))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
-                DATETIME_RE.is_match(value)
+                DATETIME_RE
+                    .captures(value)
+                    .is_some_and(|datetime| is_valid_date(&datetime))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Double(patt) => {
-                value.parse::<f64>().is_ok()
+            XsdDatatypes::Double(min_max, patt) => {
+                DOUBLE_RE.is_match(value)
+                    && f64::from_str(value).is_ok_and(|v| min_max.is_valid(&Double(v)))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
@@ -181,8 +193,9 @@ impl XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) | XsdDatatypes::IdRef(patt) => {
+                is_valid_ncname(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+            }
         }
     }
 }
@@ -194,6 +207,42 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+fn parse_integer(value: &str) -> Option<num_bigint::BigInt> {
+    let digits = value.strip_prefix(['+', '-']).unwrap_or(value);
+    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
+    }
+    let magnitude = num_bigint::BigInt::from_str(digits).ok()?;
+    Some(if value.starts_with('-') {
+        -magnitude
+    } else {
+        magnitude
+    })
+}
+
+fn has_valid_digits(
+    decimal: &str,
+    fraction_digits: Option<u16>,
+    total_digits: Option<u16>,
+) -> bool {
+    let (whole, fraction) = decimal.split_once('.').unwrap_or((decimal, ""));
+    let whole = whole.trim_start_matches(['+', '-']).trim_start_matches('0');
+    let fraction = fraction.trim_end_matches('0');
+    fraction_digits.is_none_or(|max| fraction.len() <= usize::from(max))
+        && total_digits.is_none_or(|max| whole.len() + fraction.len() <= usize::from(max))
+}
+
+fn is_valid_date(date: &regex::Captures) -> bool {
+    // years may be of any length, but the calendar repeats every 400 years
+    let year = date["year"]
+        .bytes()
+        .fold(0, |year, b| (year * 10 + i32::from(b - b'0')) % 400);
+    let (Ok(month), Ok(day)) = (date["month"].parse(), date["day"].parse()) else {
+        return false;
+    };
+    &date["year"] != "0000" && chrono::NaiveDate::from_ymd_opt(400 + year, month, day).is_some()
+}
+
 fn is_valid_nmtoken(text: &str) -> bool {
     // what's valid after the initial character of an NCName is a name character, as is ':'
     !text.is_empty() && is_valid_ncname(&format!("_{}", text.replace(':', "_")))
@@ -344,6 +393,17 @@ impl<T: PartialOrd> Max<T> {
         }
     }
 }
+/// The finite value of a facet, or the value to be checked against that
+#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+pub struct Double(f64);
+impl Eq for Double {}
+impl std::hash::Hash for Double {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // positive and negative zero are equal
+        (self.0 + 0.0).to_bits().hash(state)
+    }
+}
+
 #[derive(PartialEq, Eq, Hash, Clone, Debug)]
 pub struct MinMaxFacet<T: PartialOrd> {
     min: Min<T>,
@@ -1046,10 +1106,10 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "minInclusive" => min_max.min_inclusive(Self::f64(ctx, param)?)?,
-                "minExclusive" => min_max.min_exclusive(Self::f64(ctx, param)?)?,
-                "maxInclusive" => min_max.max_inclusive(Self::f64(ctx, param)?)?,
-                "maxExclusive" => min_max.max_exclusive(Self::f64(ctx, param)?)?,
+                "minInclusive" => min_max.min_inclusive(Double(Self::f64(ctx, param)?))?,
+                "minExclusive" => min_max.min_exclusive(Double(Self::f64(ctx, param)?))?,
+                "maxInclusive" => min_max.max_inclusive(Double(Self::f64(ctx, param)?))?,
+                "maxExclusive" => min_max.max_exclusive(Double(Self::f64(ctx, param)?))?,
                 "pattern" => self.pattern(ctx, param, &mut pattern)?,
                 _ => {
                     return Err(FacetError::InvalidFacet(
@@ -1060,7 +1120,7 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::Double(pattern))
+        Ok(XsdDatatypes::Double(min_max, pattern))
     }
 
     fn nmtokens(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
-- 
2.43.0


From bf199293a60dfbeec224bac834c5a833528165f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 25/58] fix: tokenize keywords, quoted identifiers and comments
 of the compact syntax properly

---
 relaxng-syntax/src/compact.rs | 93 +++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 36 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index b5f12c0..da796b4 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -7,15 +7,12 @@ use nom::sequence::preceded;
 use nom::{
     AsChar, IResult,
     branch::alt,
-    bytes::complete::{is_not, tag, take_until},
-    character::{
-        complete::{char, multispace1},
-        streaming::not_line_ending,
-    },
+    bytes::complete::{is_not, tag, take_until, take_while},
+    character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
-    sequence::delimited,
+    sequence::{delimited, terminated},
 };
 use nom::{Input, Parser};
 use nom_locate::{LocatedSpan, position};
@@ -98,8 +95,8 @@ fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclarat
     let (input, (_keyword, _, _, _, prefix, _, _, _, uri)) = (
         tag("default"),
         space_comment1,
-        tag("namespace"),
-        space_comment1,
+        word("namespace"),
+        space_comment0,
         opt(identifier_or_keyword),
         space_comment0,
         tag("="),
@@ -149,7 +146,7 @@ fn identifier_or_keyword(input: Span) -> IResult<Span, IdentifierOrKeyword> {
 //                             | "inherit"
 fn namespace_uri_literal(input: Span) -> IResult<Span, NamespaceUriLiteral> {
     alt((
-        map(tag("inherit"), |_| NamespaceUriLiteral::Inherit),
+        map(word("inherit"), |_| NamespaceUriLiteral::Inherit),
         map(literal, NamespaceUriLiteral::Uri),
     ))
     .parse(input)
@@ -198,13 +195,16 @@ fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
 // identifier	  ::=  	(NCName - keyword)
 //                   | quotedIdentifier
 fn identifier(input: Span) -> IResult<Span, Identifier> {
-    let res = alt((
-        recognize((tag("\\"), keyword)),
-        recognize((not(peek(keyword)), nc_name)),
-    ))
-    .parse(input);
+    let parse = alt((
+        (tag("\\"), nc_name),
+        // not quoted
+        (recognize(not(peek(keyword))), nc_name),
+    ));
+    let mut parser = map((position, parse), |(start, (_, name))| {
+        Identifier(start.location_offset()..name.0.end, name.1)
+    });
 
-    res.map(|(input, v)| (input, Identifier(span(v, input), v.to_string())))
+    parser.parse(input)
 }
 
 pub fn nc_name(input: Span) -> IResult<Span, NcName> {
@@ -256,6 +256,26 @@ fn nc_name_char(input: Span) -> IResult<Span, char> {
     .parse(input)
 }
 
+// the name of a definition; since 'start' definitions are represented that same way, an actual
+// definition of that name has to be kept apart
+fn definition_name(input: Span) -> IResult<Span, Identifier> {
+    map(identifier, |Identifier(span, name)| {
+        if name == "start" {
+            Identifier(span, "\\start".to_string())
+        } else {
+            Identifier(span, name)
+        }
+    })
+    .parse(input)
+}
+
+// the given keyword, rather than just the initial part of a name
+fn word<'a>(
+    keyword: &'static str,
+) -> impl Parser<Span<'a>, Output = Span<'a>, Error = Error<Span<'a>>> {
+    terminated(tag(keyword), not(nc_name_char))
+}
+
 fn keyword(input: Span) -> IResult<Span, Keyword> {
     let parse = (
         alt((
@@ -323,13 +343,14 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
         map(mixed_pattern, Pattern::Mixed),
         map(datatype_value_pattern, Pattern::DatatypeValue),
         map(datatype_param_pattern, Pattern::DatatypeName),
-        map(identifier, Pattern::Identifier),
-        map((tag("parent"), space_comment1, identifier), |(_, _, p)| {
-            Pattern::Parent(p)
-        }),
-        map(tag("empty"), |_| Pattern::Empty),
-        map(tag("text"), |_| Pattern::Text),
-        map(tag("notAllowed"), |_| Pattern::NotAllowed),
+        map(definition_name, Pattern::Identifier),
+        map(
+            (word("parent"), space_comment0, definition_name),
+            |(_, _, p)| Pattern::Parent(p),
+        ),
+        map(word("empty"), |_| Pattern::Empty),
+        map(word("text"), |_| Pattern::Text),
+        map(word("notAllowed"), |_| Pattern::NotAllowed),
         map(external_pattern, Pattern::External),
         map(grammar_pattern, Pattern::Grammar),
         map(group_pattern, |p| Pattern::Group(Box::new(p))),
@@ -386,8 +407,8 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 // "element" nameClass "{" pattern "}"
 fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
     let parse = (
-        tag("element"),
-        space_comment1,
+        word("element"),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -412,8 +433,8 @@ fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
 // "attribute" nameClass "{" pattern "}"
 fn attribute_pattern(input: Span) -> IResult<Span, AttributePattern> {
     let parse = (
-        tag("attribute"),
-        space_comment1,
+        word("attribute"),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -470,10 +491,10 @@ fn mixed_pattern(input: Span) -> IResult<Span, MixedPattern> {
 // "external" anyURILiteral [inherit]
 fn external_pattern(input: Span) -> IResult<Span, ExternalPattern> {
     let parse = (
-        tag("external"),
-        space_comment1,
+        word("external"),
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, inherit)| inherit)),
+        opt(map((space_comment0, inherit), |(_, inherit)| inherit)),
     );
 
     let mut parser = map(parse, |(_, _, uri, inherit)| ExternalPattern(uri, inherit));
@@ -588,9 +609,9 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
     alt((
-        map(tag("string"), |_| DatatypeName::String),
-        map(tag("token"), |_| DatatypeName::Token),
         map(cname, DatatypeName::CName),
+        map(word("string"), |_| DatatypeName::String),
+        map(word("token"), |_| DatatypeName::Token),
     ))
     .parse(input)
 }
@@ -756,7 +777,7 @@ fn start(input: Span) -> IResult<Span, Define> {
 fn define(input: Span) -> IResult<Span, Define> {
     let parse = (
         position,
-        identifier,
+        definition_name,
         space_comment0,
         assign_method,
         space_comment0,
@@ -803,10 +824,10 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
 // "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn include(input: Span) -> IResult<Span, Include> {
     let parse = (
-        tag("include"),
-        space_comment1,
+        word("include"),
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, v)| v)),
+        opt(map((space_comment0, inherit), |(_, v)| v)),
         opt(map(
             (
                 space_comment0,
@@ -888,7 +909,7 @@ fn space_comment1(input: Span) -> IResult<Span, Span> {
     recognize(fold_many1(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
 }
 fn comment(input: Span) -> IResult<Span, Span> {
-    recognize((tag("#"), not_line_ending)).parse(input)
+    recognize((tag("#"), take_while(|c| c != '\n' && c != '\r'))).parse(input)
 }
 
 fn maybe_initial_annotation(input: Span) -> IResult<Span, Option<InitialAnnotation>> {
-- 
2.43.0


From 574ceaa8bdf28d582c012a82fafa649073287924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 26/58] fix: don't require whitespace between tokens of the
 compact syntax that don't need it

---
 relaxng-syntax/src/compact.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index da796b4..fc93921 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -37,12 +37,12 @@ pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
 // topLevel	  ::=  	decl* (pattern | grammarContent*)
 fn top_level(input: Span) -> IResult<Span, Schema> {
     let parse = (
-        separated_list0(space_comment1, decl),
+        separated_list0(space_comment0, decl),
         space_comment0, // TODO: should be space_comment1, and only required if there are decls
         alt((
             // TODO: proper span for GrammarPattern
             map(
-                separated_list1(space_comment1, grammar_content),
+                separated_list1(space_comment0, grammar_content),
                 |content| {
                     PatternOrGrammar::Grammar(GrammarPattern {
                         span: 0..0,
@@ -509,7 +509,7 @@ fn grammar_pattern(input: Span) -> IResult<Span, GrammarPattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
         position,
@@ -548,7 +548,7 @@ fn datatype_param_pattern(input: Span) -> IResult<Span, DatatypeNamePattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, param),
+        separated_list0(space_comment0, param),
         space_comment0,
         cut(tag("}")),
     );
@@ -811,7 +811,7 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -833,7 +833,7 @@ fn include(input: Span) -> IResult<Span, Include> {
                 space_comment0,
                 tag("{"),
                 space_comment0,
-                separated_list0(space_comment1, include_content),
+                separated_list0(space_comment0, include_content),
                 space_comment0,
                 cut(tag("}")),
             ),
@@ -892,7 +892,7 @@ fn div_include_content(input: Span) -> IResult<Span, Vec<IncludeContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, include_content),
+        separated_list0(space_comment0, include_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -920,9 +920,9 @@ fn initial_annotation(input: Span) -> IResult<Span, InitialAnnotation> {
     let parse = (
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element),
+        separated_list0(space_comment0, annotation_element),
         space_comment0,
         tag("]"),
     );
@@ -972,9 +972,9 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
         space_comment0,
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element_or_literal),
+        separated_list0(space_comment0, annotation_element_or_literal),
         space_comment0,
         tag("]"),
     );
-- 
2.43.0


From d0c471aef1f7d1411356ad2d183a35f28bca59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 27/58] fix: reject different operators which aren't separated
 by parentheses

---
 relaxng-syntax/src/compact.rs | 55 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index fc93921..22d3e13 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -8,7 +8,7 @@ use nom::{
     AsChar, IResult,
     branch::alt,
     bytes::complete::{is_not, tag, take_until, take_while},
-    character::complete::{char, multispace1},
+    character::complete::{char, multispace1, one_of},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
@@ -332,6 +332,38 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
 //    | "grammar" "{" grammarContent* "}"
 //    | "(" pattern ")"
 fn pattern(input: Span) -> IResult<Span, Pattern> {
+    let (mut input, first) = particle(input)?;
+    let mut particles = vec![first];
+    let mut operator = None;
+    loop {
+        let (i, _) = space_comment0(input)?;
+        let Ok((after, op)) = one_of::<_, _, Error<Span>>(",&|").parse(i) else {
+            break;
+        };
+        // mixing different operators requires parentheses
+        if *operator.get_or_insert(op) != op {
+            return Err(nom::Err::Failure(Error::new(i, ErrorKind::OneOf)));
+        }
+        let (i, _) = space_comment0(after)?;
+        let (i, right) = particle(i)?;
+        particles.push(right);
+        input = i;
+    }
+    let pair = match operator {
+        Some(',') => Pattern::ListPair,
+        Some('&') => Pattern::InterleavePair,
+        _ => Pattern::ChoicePair,
+    };
+    let result = particles
+        .into_iter()
+        .rev()
+        .reduce(|right, left| pair(Box::new(left), Box::new(right)))
+        .expect("at least one particle");
+    IResult::Ok((input, result))
+}
+
+// a pattern other than those that combine several patterns by means of an infix operator
+fn particle(input: Span) -> IResult<Span, Pattern> {
     let (input, annotation) = maybe_initial_annotation(input)?;
     if let Some(annotation) = annotation {
         println!("pattern annotation found but ignored! {:?}", annotation);
@@ -364,27 +396,6 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 
     loop {
         let (i, _) = space_comment0(input)?;
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>(",")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::ListPair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("&")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::InterleavePair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("|")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::ChoicePair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
         if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("?")(i) {
             result = Pattern::Optional(Box::new(result));
             input = i;
-- 
2.43.0


From a98924c46923adaa617085b8eb41c0bc42823088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 28/58] fix: accept annotations wherever they're allowed, and
 don't print them

---
 relaxng-syntax/src/compact.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 22d3e13..bc21586 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -364,10 +364,8 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 
 // a pattern other than those that combine several patterns by means of an infix operator
 fn particle(input: Span) -> IResult<Span, Pattern> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if let Some(annotation) = annotation {
-        println!("pattern annotation found but ignored! {:?}", annotation);
-    }
+    // TODO: annotations are ignored
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, mut result) = alt((
         map(element_pattern, Pattern::Element),
         map(attribute_pattern, Pattern::Attribute),
@@ -389,10 +387,7 @@ fn particle(input: Span) -> IResult<Span, Pattern> {
     ))
     .parse(input)?;
 
-    let (mut input, follow_annotations) = follow_annotation_list(input)?;
-    if !follow_annotations.is_empty() {
-        println!("pattern follow annotation found but ignored! {follow_annotations:?}");
-    }
+    let (mut input, _follow_annotations) = follow_annotation_list(input)?;
 
     loop {
         let (i, _) = space_comment0(input)?;
@@ -413,6 +408,7 @@ fn particle(input: Span) -> IResult<Span, Pattern> {
         }
         break;
     }
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
     IResult::Ok((input, result))
 }
 // "element" nameClass "{" pattern "}"
@@ -628,10 +624,8 @@ fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
 }
 
 fn name_class(input: Span) -> IResult<Span, NameClass> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if annotation.is_some() {
-        println!("name-class annotation found but ignored!")
-    }
+    // TODO: annotations are ignored
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, left) = alt((
         map(ns_name_nc, NameClass::NsName),
         map(name, NameClass::Name),
@@ -641,13 +635,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
     ))
     .parse(input)?;
 
-    let (input, follow_annotations) = follow_annotation_list(input)?;
-    if !follow_annotations.is_empty() {
-        println!(
-            "name-class follow annotation found but ignored! {:?}",
-            annotation.unwrap()
-        );
-    }
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
 
     if let Ok((input, right)) = alt_nc(input) {
         return Ok((
@@ -744,6 +732,8 @@ where
 //                        | "div" "{" grammarContent* "}"
 //                        | "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
+    // TODO: annotations are ignored
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
         map(start, GrammarContent::Define),
         map(define, GrammarContent::Define),
@@ -883,10 +873,8 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
 //                    | start
 //                    | "div" "{" includeContent* "}"
 fn include_content(input: Span) -> IResult<Span, IncludeContent> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if annotation.is_some() {
-        println!("include-content annotation found but ignored!")
-    }
+    // TODO: annotations are ignored
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
         map(annotation_element, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
-- 
2.43.0


From 5f0a28009ce90486a81748ba06e4cd709af4d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 29/58] fix: resolve names, text and common attributes of the
 XML syntax properly

---
 relaxng-syntax/src/xml.rs | 198 +++++++++++++++++---------------------
 1 file changed, 86 insertions(+), 112 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index aedceb0..e5106cb 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -145,7 +145,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name)?);
+        let name_class = NameClass::Name(qname_att(node, &name, get_ns(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -159,12 +159,22 @@ fn element(node: Node) -> Result<ElementPattern> {
         (name_class, pattern)
     };
     Ok(ElementPattern {
-        span: node.range().start + 1..node.range().start + 8,
+        span: tag_name_range(node),
         name_class,
         pattern: Box::new(pattern),
     })
 }
 
+/// The location of the name in the start-tag
+fn tag_name_range(node: Node) -> Range<usize> {
+    let start = node.range().start + 1;
+    let text = &node.document().input_text()[start..];
+    let len = text
+        .find(|c: char| c.is_ascii_whitespace() || c == '/' || c == '>')
+        .unwrap_or(text.len());
+    start..start + len
+}
+
 fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error> {
     if let Some(a) = node
         .attributes()
@@ -325,7 +335,8 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let ns = get_ns_att(node);
+    // the name attribute, as opposed to a name child, uses the ns attribute of only this element
+    let ns = node.attribute_node("ns");
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
@@ -341,7 +352,11 @@ fn attribute(node: Node) -> Result<AttributePattern> {
             ));
         }
         (
-            NameClass::Name(qname_att(node, &name)?),
+            NameClass::Name(qname_att(
+                node,
+                &name,
+                ns.map(|ns| Literal::new(ns.range_value(), ns.value().to_string())),
+            )?),
             first_rng_child(node),
         )
     } else {
@@ -362,7 +377,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
         ));
     }
     Ok(AttributePattern {
-        span: node.range().start + 1..node.range().start + 10,
+        span: tag_name_range(node),
         name_class,
         pattern: Box::new(pattern),
     })
@@ -434,7 +449,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
     if let Some(name) = node.attribute_node("name") {
-        attr_ncname(&name)
+        definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
     }
@@ -443,7 +458,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
     if let Some(name) = node.attribute_node("name") {
-        attr_ncname(&name)
+        definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
     }
@@ -470,21 +485,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
         .attribute_node("type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
-    let val = if let Some(child) = node.first_child() {
-        let seg = LiteralSegment {
-            body: child
-                .text()
-                .ok_or(Error::Expected(node.range(), "Text content"))?
-                .to_string(),
-        };
-        Literal(child.range(), vec![seg])
-    } else {
-        // treat the value as ""
-        let seg = LiteralSegment {
-            body: "".to_string(),
-        };
-        Literal(node.range(), vec![seg])
-    };
+    let val = Literal::new(text_range(node), text_content(node));
     Ok(DatatypeValuePattern(
         type_name.map(|name| {
             DatatypeName::NamespacedName(NamespacedName {
@@ -503,23 +504,11 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     let type_attr = node
         .attribute_node("type")
         .ok_or(Error::Expected(node.range(), "type attribute"))?;
-    let type_name = match type_attr.value().trim() {
-        // TODO: check datatypeLibrary namespace!
-        "token" => DatatypeName::Token,
-        val => {
-            let name = ncname(type_attr.range_value(), val)?;
-            DatatypeName::NamespacedName(NamespacedName {
-                namespace_uri: datatype_ns,
-                localname: name,
-            })
-        }
-    };
-    if let Some(a) = node
-        .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "type" && a.name() != "datatypeLibrary")
-    {
-        return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
-    }
+    let type_name = DatatypeName::NamespacedName(NamespacedName {
+        namespace_uri: datatype_ns,
+        localname: ncname(type_attr.range_value(), type_attr.value())?,
+    });
+    no_attrs_except(node, &["type", "ns", "datatypeLibrary"])?;
 
     let (params, rest) = if let Some(child) = first_rng_child(node) {
         params(child)?
@@ -581,16 +570,8 @@ fn param(node: Node) -> Result<Param> {
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
-    let child = node
-        .first_child()
-        .ok_or(Error::Expected(node.range(), "Text content"))?;
-    let seg = LiteralSegment {
-        body: child
-            .text()
-            .ok_or(Error::Expected(node.range(), "Text content"))?
-            .to_string(),
-    };
-    let val = Literal(child.range(), vec![seg]);
+    no_element_children(node)?;
+    let val = Literal::new(text_range(node), text_content(node));
 
     Ok(Param(
         node.range(),
@@ -672,17 +653,12 @@ fn start(node: Node) -> Result<Define> {
     } else {
         AssignMethod::Assign
     };
-    if let Some(a) = node
-        .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "combine")
-    {
-        return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
-    }
+    no_attrs_except(node, &["combine", "ns", "datatypeLibrary"])?;
     // we just produce another 'Define' named "start", rather than using a dedicated 'Start' type,
     // so as to avoid duplication of code handling 'start' definitions and other definitions
     // TODO: revisit this design later
 
-    let start_span = node.range().start + 1..node.range().start + 6;
+    let start_span = tag_name_range(node);
     let name = Identifier(start_span, "start".to_string());
 
     let child =
@@ -713,7 +689,7 @@ fn define(node: Node) -> Result<Define> {
     let name = node
         .attribute_node("name")
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
-    let name = attr_ncname(&name)?;
+    let name = definition_name(&name)?;
 
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Child pattern element"))?,
@@ -741,6 +717,18 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     }
 }
 
+/// Since 'start' definitions are represented in the same way as other ones, an actual definition of
+/// that name has to be kept apart
+fn definition_name(attr: &Attribute) -> Result<Identifier> {
+    attr_ncname(attr).map(|Identifier(span, name)| {
+        if name == "start" {
+            Identifier(span, "\\start".to_string())
+        } else {
+            Identifier(span, name)
+        }
+    })
+}
+
 fn rebase_path(node: Node, href: &str) -> Result<String> {
     let bases = node
         .ancestors()
@@ -824,50 +812,46 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
-    let val = name.value();
-    if let Some(pos) = val.find(':') {
-        let start = name.range_value().start;
-        let end = name.range_value().end;
-        let prefix = &val[0..pos];
-        let prefix_span = start..(start + pos);
-        let namespace = lookup_namespace_def(node, Some(prefix.trim()))
-            .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
-        let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
-        let ns = Literal::new(prefix_span, namespace.to_string());
-        Ok(Name::NamespacedName(NamespacedName {
-            namespace_uri: ns,
-            localname,
-        }))
-    } else {
-        let ns = get_ns(node).unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
-        let localname = ncname(name.range_value(), val)?;
-        Ok(Name::NamespacedName(NamespacedName {
-            namespace_uri: ns,
-            localname,
-        }))
-    }
+fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name> {
+    qname(node, name.range_value(), name.value(), ns)
 }
 
 fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
-    if let Some(val) = name.text() {
-        if let Some(pos) = val.find(':') {
-            let start = name.range().start;
-            let end = name.range().end;
-            let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
-            let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            Ok(Name::CName(QName(prefix, localname)))
-        } else {
-            let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
-            let localname = ncname(name.first_child().unwrap().range(), val)?;
-            Ok(Name::NamespacedName(NamespacedName {
-                namespace_uri: ns,
-                localname,
-            }))
-        }
+    qname(name, text_range(name), &text_content(name), get_ns(name))
+}
+
+/// The namespace to be used for names without a prefix is `ns`
+fn qname(node: Node, range: Range<usize>, val: &str, ns: Option<Literal>) -> Result<Name> {
+    let (namespace_uri, localname) = if let Some((prefix, localname)) = val.split_once(':') {
+        let namespace = lookup_namespace_def(node, Some(prefix.trim()))
+            .ok_or_else(|| Error::Unexpected(range.clone(), "Unknown namespace prefix"))?;
+        (
+            Literal::new(range.clone(), namespace.to_string()),
+            localname,
+        )
     } else {
-        Err(Error::Expected(name.range(), "Text contents"))
+        // TODO allow None or something rather than inventing an 'empty' NcName
+        (ns.unwrap_or(Literal::new(0..0, "".to_string())), val)
+    };
+    Ok(Name::NamespacedName(NamespacedName {
+        namespace_uri,
+        localname: ncname(range, localname)?,
+    }))
+}
+
+/// All of the text in the given element, regardless of any comments it's interspersed with
+fn text_content(node: Node) -> String {
+    node.children()
+        .filter(|child| child.is_text())
+        .filter_map(|child| child.text())
+        .collect()
+}
+
+fn text_range(node: Node) -> Range<usize> {
+    match (node.first_child(), node.last_child()) {
+        (Some(first), Some(last)) => first.range().start..last.range().end,
+        _ => node.range(),
     }
 }
 
@@ -879,17 +863,10 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
     for (i, c) in val.char_indices() {
         if i == 0 {
             if !is_nc_name_start_char(c) {
-                return Err(Error::Unexpected(
-                    range.start..range.start + 1,
-                    "Unexpected character for NcName",
-                ));
+                return Err(Error::Unexpected(range, "Unexpected character for NcName"));
             }
         } else if !is_nc_name_char(c) {
-            println!("NcName Urk! {val:?}");
-            return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
-                "Unexpected character for NcName",
-            ));
+            return Err(Error::Unexpected(range, "Unexpected character for NcName"));
         }
     }
     Ok(NcName(range, val.to_string()))
@@ -917,13 +894,13 @@ fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    range,
                     "Unexpected character within identifier",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                range,
                 "Unexpected character within identifier",
             ));
         }
@@ -982,12 +959,9 @@ fn is_rng(ns: Option<&str>) -> bool {
     ns == Some("http://relaxng.org/ns/structure/1.0")
 }
 
+/// Allows only those attributes that are allowed for any element
 fn no_attrs(node: Node) -> Result<()> {
-    if let Some(att) = node.attributes().find(|a| is_rng_att(a)) {
-        Err(Error::Unexpected(att.range(), "Unexpected attribute"))
-    } else {
-        Ok(())
-    }
+    no_attrs_except(node, &["ns", "datatypeLibrary"])
 }
 
 fn no_rng_element_children(node: Node) -> Result<()> {
-- 
2.43.0


From 0846b81945e57f675a82c1c98b82ec20c206ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 30/58] fix: limit the operand of an except operator of the
 compact syntax

---
 relaxng-syntax/src/compact.rs | 81 ++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index bc21586..fbf034c 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -364,28 +364,7 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 
 // a pattern other than those that combine several patterns by means of an infix operator
 fn particle(input: Span) -> IResult<Span, Pattern> {
-    // TODO: annotations are ignored
-    let (input, _annotation) = maybe_initial_annotation(input)?;
-    let (input, mut result) = alt((
-        map(element_pattern, Pattern::Element),
-        map(attribute_pattern, Pattern::Attribute),
-        map(list_pattern, Pattern::List),
-        map(mixed_pattern, Pattern::Mixed),
-        map(datatype_value_pattern, Pattern::DatatypeValue),
-        map(datatype_param_pattern, Pattern::DatatypeName),
-        map(definition_name, Pattern::Identifier),
-        map(
-            (word("parent"), space_comment0, definition_name),
-            |(_, _, p)| Pattern::Parent(p),
-        ),
-        map(word("empty"), |_| Pattern::Empty),
-        map(word("text"), |_| Pattern::Text),
-        map(word("notAllowed"), |_| Pattern::NotAllowed),
-        map(external_pattern, Pattern::External),
-        map(grammar_pattern, Pattern::Grammar),
-        map(group_pattern, |p| Pattern::Group(Box::new(p))),
-    ))
-    .parse(input)?;
+    let (input, mut result) = primary(input)?;
 
     let (mut input, _follow_annotations) = follow_annotation_list(input)?;
 
@@ -411,6 +390,31 @@ fn particle(input: Span) -> IResult<Span, Pattern> {
     let (input, _follow_annotations) = follow_annotation_list(input)?;
     IResult::Ok((input, result))
 }
+// a pattern without any operators
+fn primary(input: Span) -> IResult<Span, Pattern> {
+    // TODO: annotations are ignored
+    let (input, _annotation) = maybe_initial_annotation(input)?;
+    alt((
+        map(element_pattern, Pattern::Element),
+        map(attribute_pattern, Pattern::Attribute),
+        map(list_pattern, Pattern::List),
+        map(mixed_pattern, Pattern::Mixed),
+        map(datatype_value_pattern, Pattern::DatatypeValue),
+        map(datatype_param_pattern, Pattern::DatatypeName),
+        map(definition_name, Pattern::Identifier),
+        map(
+            (word("parent"), space_comment0, definition_name),
+            |(_, _, p)| Pattern::Parent(p),
+        ),
+        map(word("empty"), |_| Pattern::Empty),
+        map(word("text"), |_| Pattern::Text),
+        map(word("notAllowed"), |_| Pattern::NotAllowed),
+        map(external_pattern, Pattern::External),
+        map(grammar_pattern, Pattern::Grammar),
+        map(group_pattern, |p| Pattern::Group(Box::new(p))),
+    ))
+    .parse(input)
+}
 // "element" nameClass "{" pattern "}"
 fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
     let parse = (
@@ -603,8 +607,10 @@ fn param(input: Span) -> IResult<Span, Param> {
 }
 
 // exceptPattern     ::=   "-" pattern
+//
+// the operand doesn't include any operator following it, unless parenthesised
 fn except_pattern(input: Span) -> IResult<Span, Pattern> {
-    let parse = (tag("-"), space_comment0, pattern);
+    let parse = (tag("-"), space_comment0, primary);
 
     let mut parser = map(parse, |(_, _, pat)| pat);
 
@@ -624,16 +630,7 @@ fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
 }
 
 fn name_class(input: Span) -> IResult<Span, NameClass> {
-    // TODO: annotations are ignored
-    let (input, _annotation) = maybe_initial_annotation(input)?;
-    let (input, left) = alt((
-        map(ns_name_nc, NameClass::NsName),
-        map(name, NameClass::Name),
-        map(any_name_nc, NameClass::AnyName),
-        //map(alt_nc, |r| NameClass::Alt(r)),
-        map(paren_nc, NameClass::Paren),
-    ))
-    .parse(input)?;
+    let (input, left) = simple_name_class(input)?;
 
     let (input, _follow_annotations) = follow_annotation_list(input)?;
 
@@ -647,6 +644,20 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
     Ok((input, left))
 }
 
+// a name class that's not a choice, unless parenthesised
+fn simple_name_class(input: Span) -> IResult<Span, NameClass> {
+    // TODO: annotations are ignored
+    let (input, _annotation) = maybe_initial_annotation(input)?;
+    alt((
+        map(ns_name_nc, NameClass::NsName),
+        map(name, NameClass::Name),
+        map(any_name_nc, NameClass::AnyName),
+        //map(alt_nc, |r| NameClass::Alt(r)),
+        map(paren_nc, NameClass::Paren),
+    ))
+    .parse(input)
+}
+
 // name	  ::=  	identifierOrKeyword
 //            | CName
 fn name(input: Span) -> IResult<Span, Name> {
@@ -661,7 +672,7 @@ fn ns_name_nc(input: Span) -> IResult<Span, NsName> {
     let parse = (
         nc_name,
         tag(":*"),
-        opt((space_comment0, tag("-"), space_comment0, name_class)),
+        opt((space_comment0, tag("-"), space_comment0, simple_name_class)),
     );
 
     let mut parser = map(parse, |(name, _, except)| NsName {
@@ -675,7 +686,7 @@ fn ns_name_nc(input: Span) -> IResult<Span, NsName> {
 fn any_name_nc(input: Span) -> IResult<Span, AnyName> {
     let parse = (
         tag("*"),
-        opt((space_comment0, tag("-"), space_comment0, name_class)),
+        opt((space_comment0, tag("-"), space_comment0, simple_name_class)),
     );
 
     let mut parser = map(parse, |(_, except)| {
-- 
2.43.0


From 199cd501a0947b4a9bc47ebc6658bd1668a03074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 31/58] fix: resolve chains of definitions that only refer to
 another definition

---
 relaxng-validator/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index fc728b8..cde9157 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -275,8 +275,13 @@ impl Schema {
     /// To be called once all definitions have been compiled
     fn resolve_aliases(&self) {
         let mut inner = self.inner.borrow_mut();
-        // the target of an alias may only become an alias itself after the former is recorded
-        while let Some((placeholder_id, id)) = inner.aliases.pop() {
+        let aliases: HashMap<PatId, PatId> = inner.aliases.drain(..).collect();
+        for (placeholder_id, id) in &aliases {
+            // the target of an alias may be an alias itself
+            let mut id = id;
+            while let Some(next) = aliases.get(id) {
+                id = next;
+            }
             inner.patterns[placeholder_id.0 as usize] = inner.patterns[id.0 as usize].clone();
         }
     }
-- 
2.43.0


From e4e73aa1366d799604c0ad381c12f37018635be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 32/58] fix: don't take foreign attributes of the XML syntax
 for its own

---
 relaxng-syntax/src/xml.rs | 57 ++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index e5106cb..6d78673 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -91,7 +91,7 @@ fn pattern(node: Node) -> Result<Pattern> {
 }
 
 fn check_standard_attrs(node: Node) -> Result<()> {
-    if let Some(dt_lib) = node.attribute_node("datatypeLibrary") {
+    if let Some(dt_lib) = attribute_node(node, "datatypeLibrary") {
         let val = dt_lib.value();
         if val.is_empty() {
             Ok(())
@@ -144,7 +144,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 }
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, pattern) = if let Some(name) = attribute_node(node, "name") {
         let name_class = NameClass::Name(qname_att(node, &name, get_ns(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
@@ -287,7 +287,7 @@ fn get_ns(node: Node) -> Option<Literal> {
 fn get_ns_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("ns") {
+        if let Some(ns) = attribute_node(node, "ns") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -304,7 +304,7 @@ fn get_datatype_lib(node: Node) -> Option<Literal> {
 fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("datatypeLibrary") {
+        if let Some(ns) = attribute_node(node, "datatypeLibrary") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -336,8 +336,8 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     // the name attribute, as opposed to a name child, uses the ns attribute of only this element
-    let ns = node.attribute_node("ns");
-    let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+    let ns = attribute_node(node, "ns");
+    let (name_class, rest) = if let Some(name) = attribute_node(node, "name") {
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -448,7 +448,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = attribute_node(node, "name") {
         definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -457,7 +457,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = attribute_node(node, "name") {
         definition_name(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -481,8 +481,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_name = node
-        .attribute_node("type")
+    let type_name = attribute_node(node, "type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
     let val = Literal::new(text_range(node), text_content(node));
@@ -501,9 +500,8 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_attr = node
-        .attribute_node("type")
-        .ok_or(Error::Expected(node.range(), "type attribute"))?;
+    let type_attr =
+        attribute_node(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = DatatypeName::NamespacedName(NamespacedName {
         namespace_uri: datatype_ns,
         localname: ncname(type_attr.range_value(), type_attr.value())?,
@@ -565,9 +563,8 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name =
+        attribute_node(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     no_element_children(node)?;
@@ -588,9 +585,8 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href =
+        attribute_node(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     // TODO: ExternalPattern's requirement for a 'literal' here is inconvenient, and its API should
     //       be altered to make using it here simpler
@@ -639,7 +635,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 }
 
 fn start(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = attribute_node(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -671,7 +667,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = attribute_node(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -686,9 +682,8 @@ fn define(node: Node) -> Result<Define> {
         AssignMethod::Assign
     };
 
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name =
+        attribute_node(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = definition_name(&name)?;
 
     let patt = single_pattern_or_group(
@@ -761,9 +756,8 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href =
+        attribute_node(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     let seg = LiteralSegment {
         body: rebase_path(node, href.value())?,
@@ -946,6 +940,15 @@ fn is_rng_node(node: Node) -> bool {
     is_rng(node.tag_name().namespace())
 }
 
+/// Find the attribute which has the given name, and no namespace
+fn attribute_node<'a, 'input: 'a>(
+    node: Node<'a, 'input>,
+    name: &str,
+) -> Option<Attribute<'a, 'input>> {
+    node.attributes()
+        .find(|a| a.namespace().is_none() && a.name() == name)
+}
+
 fn is_rng_att(a: &Attribute) -> bool {
     // if an attribute has no namespace prefix, then it is not formally in the default namesapce
     // of the document (as an element with no namespace prefix would be).  Here we assume that we
-- 
2.43.0


From 886febd493f0bb0c7e9dbbd7ea8d6ab18770c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 33/58] fix: hint at the content of an element when its
 empty-element tag is the error

---
 relaxng-validator/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index cde9157..23dcd0c 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -814,7 +814,9 @@ impl<'a> Validator<'a> {
                     let result = Self::close_element_start(&self.stack, &mut self.schema, evt, pat);
                     self.no_child_elements = false;
                     self.stack.pop();
-                    let next_id = Self::only_text_deriv(result?, &mut self.schema, "");
+                    // from here on, what is expected is the content of this element
+                    self.current_step = result?;
+                    let next_id = Self::only_text_deriv(self.current_step, &mut self.schema, "");
                     let next_pat = self.schema.patt(next_id);
                     Self::end_tag_deriv(next_pat, &mut self.schema)
                 }
-- 
2.43.0


From 06056ab8531d41fa4ddcd1196eb092cba52d5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 34/58] fix: don't take parameter entities for general entities

---
 relaxng-validator/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 23dcd0c..cf6e1ca 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -838,8 +838,12 @@ impl<'a> Validator<'a> {
             Token::EntityDeclaration {
                 name,
                 definition,
-                span: _,
+                span,
             } => {
+                if is_parameter_entity(span) {
+                    // can't be referenced from outside the DTD
+                    return Ok(());
+                }
                 match definition {
                     EntityDefinition::EntityValue(val) => {
                         self.entities.declare(name.as_str(), val)?;
@@ -1605,6 +1609,15 @@ fn parse_entities(
     }
 }
 
+/// Is this "<!ENTITY % name ..>", rather than "<!ENTITY name ..>"?
+fn is_parameter_entity(declaration: StrSpan<'_>) -> bool {
+    declaration
+        .as_str()
+        .trim_start_matches("<!ENTITY")
+        .trim_start_matches(is_whitespace_char)
+        .starts_with('%')
+}
+
 /// Where some text appears in the document; this affects the normalisation of whitespace
 #[derive(Copy, Clone, PartialEq)]
 enum TextKind {
-- 
2.43.0


From fbe00e944517a4de29cfec5b5026711f197df43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 35/58] fix: reject namespace declarations that 'Namespaces in
 XML' doesn't allow

---
 relaxng-validator/src/lib.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index cf6e1ca..bc2ec95 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -788,6 +788,11 @@ impl<'a> Validator<'a> {
                 let mut decoded = String::new();
                 self.entities
                     .decode(value, TextKind::AttributeValue, &mut decoded)?;
+                if let Some(declared) = declared_prefix(prefix, local) {
+                    if !may_declare(declared, &decoded) {
+                        return Err(ValidatorError::NotAllowed(evt));
+                    }
+                }
                 self.stack.add_attr(prefix, local, value, decoded, span);
                 // does not change current_step state
                 return Ok(());
@@ -1777,6 +1782,26 @@ fn is_whitespace_str(s: &str) -> bool {
 }
 
 const XML_NAMESPACE_URI: &str = "http://www.w3.org/XML/1998/namespace";
+const XMLNS_NAMESPACE_URI: &str = "http://www.w3.org/2000/xmlns/";
+
+/// If the attribute of this name is a namespace declaration, the prefix it declares (which is empty
+/// for the default namespace)
+fn declared_prefix<'a>(prefix: StrSpan<'a>, local: StrSpan<'a>) -> Option<&'a str> {
+    match (prefix.as_str(), local.as_str()) {
+        ("xmlns", prefix) => Some(prefix),
+        ("", "xmlns") => Some(""),
+        _ => None,
+    }
+}
+
+/// The constraints which 'Namespaces in XML' places on declarations
+fn may_declare(prefix: &str, namespace_uri: &str) -> bool {
+    match (prefix, namespace_uri) {
+        ("xml", uri) => uri == XML_NAMESPACE_URI,
+        ("xmlns", _) | (_, XML_NAMESPACE_URI | XMLNS_NAMESPACE_URI) => false,
+        (prefix, uri) => prefix.is_empty() || !uri.is_empty(),
+    }
+}
 
 #[derive(Default)]
 struct ElementStack<'a> {
@@ -1823,10 +1848,8 @@ impl<'a> ElementStack<'a> {
     }
     /// Is this the name of a namespace declaration already seen on the current element?
     fn declares_namespace(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
-        let declared = match (prefix.as_str(), local.as_str()) {
-            ("xmlns", prefix) => prefix,
-            ("", "xmlns") => "",
-            _ => return false,
+        let Some(declared) = declared_prefix(prefix, local) else {
+            return false;
         };
         let curr = self.elements.last().unwrap();
         curr.lookup_namespace_uri(declared).is_some()
-- 
2.43.0


From 8025bc5df4a78ed892edebb107c05a58673c3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 36/58] fix: don't reject recursion via a nested grammar's
 elements and 'parent' references

---
 relaxng-model/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index e9b66da..a6db4d4 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -644,7 +644,9 @@ impl<'a> Context<'a> {
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
-            Context::Grammar { parent, .. } => parent.acquire_ref(id),
+            // the definition may well refer to itself here, from within the content of an element of
+            // this grammar; that's left for RecursionCheck to decide
+            Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
-- 
2.43.0


From 790511c73cd30e09d7c01c52f05ba35830ce7714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 37/58] fix: allow compact grammars without any content

---
 relaxng-syntax/src/compact.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index fbf034c..997d0a1 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -9,7 +9,7 @@ use nom::{
     branch::alt,
     bytes::complete::{is_not, tag, take_until, take_while},
     character::complete::{char, multispace1, one_of},
-    combinator::{all_consuming, map, not, opt, peek, recognize},
+    combinator::{all_consuming, eof, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
     sequence::{delimited, terminated},
@@ -40,6 +40,13 @@ fn top_level(input: Span) -> IResult<Span, Schema> {
         separated_list0(space_comment0, decl),
         space_comment0, // TODO: should be space_comment1, and only required if there are decls
         alt((
+            // no grammarContent at all
+            map(eof, |_| {
+                PatternOrGrammar::Grammar(GrammarPattern {
+                    span: 0..0,
+                    content: vec![],
+                })
+            }),
             // TODO: proper span for GrammarPattern
             map(
                 separated_list1(space_comment0, grammar_content),
-- 
2.43.0


From 7711206b04c12dbe784f8da732ae126c6f8bf6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 38/58] fix: don't take a top-level pattern with annotations
 for an annotation element

---
 relaxng-syntax/src/compact.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 997d0a1..6232ee8 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -757,7 +757,7 @@ fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
         map(define, GrammarContent::Define),
         map(div_grammar_content, GrammarContent::Div),
         map(include, GrammarContent::Include),
-        map(annotation_element, GrammarContent::Annotation),
+        map(annotation_element_not_keyword, GrammarContent::Annotation),
     ))
     .parse(input)
 }
@@ -894,7 +894,7 @@ fn include_content(input: Span) -> IResult<Span, IncludeContent> {
     // TODO: annotations are ignored
     let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
-        map(annotation_element, IncludeContent::Annotation),
+        map(annotation_element_not_keyword, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
         map(start, IncludeContent::Define),
         map(div_include_content, IncludeContent::Div),
@@ -1014,6 +1014,11 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
     parser.parse(input)
 }
 
+/// At the level of a grammar a keyword starts something else, such as an `element` pattern
+fn annotation_element_not_keyword(input: Span) -> IResult<Span, AnnotationElement> {
+    preceded(not((keyword, not(tag(":")))), annotation_element).parse(input)
+}
+
 fn annotation_element_or_literal(input: Span) -> IResult<Span, AnnotationElementOrLiteral> {
     let mut parser = alt((
         map(annotation_element, AnnotationElementOrLiteral::Element),
-- 
2.43.0


From c25ac558ee23fd40b560ff74dea75f14d250baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 39/58] fix: allow the body of an include to refer to the
 included file

---
 relaxng-model/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index a6db4d4..81fcf51 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -698,8 +698,11 @@ impl<'a> Context<'a> {
         let (file, parent) = match self {
             Context::Root { file, .. } => (file, None),
             Context::Include { parent, file, .. } => (file, Some(parent)),
+            // (the including file may well refer to the file it includes once more)
+            Context::IncludeOverrides { parent } => {
+                return parent.including().check_include(span, this_file);
+            }
             Context::Grammar { parent, .. }
-            | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => return parent.check_include(span, this_file),
-- 
2.43.0


From eb1c9c55ddd2b84f2808e117fa310ca237c26642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 40/58] fix: merge alternatives which differ only within or
 after the current element

Ambiguous recursive schemas made the number of alternatives double with
every level of nesting of the document.
---
 relaxng-validator/src/lib.rs | 40 ++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index bc2ec95..bc8a0b3 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -118,6 +118,11 @@ impl Schema {
         match (self.patt(left), self.patt(right)) {
             (Pat::NotAllowed, _) => right,
             (_, Pat::NotAllowed) => left,
+            (Pat::Choice(l, r, _), _) if self.is_after_choice(l) => {
+                let right = self.choice(r, right);
+                self.choice(l, right)
+            }
+            (Pat::After(p1, p2), _) => self.after_choice(left, p1, p2, right),
             (_, _) => {
                 let mut leaves = HashSet::new();
                 self.choice_leaves(right, &mut leaves);
@@ -132,6 +137,41 @@ impl Schema {
             }
         }
     }
+    /// Adds the given After-pattern to a choice of others.
+    ///
+    /// Where several alternatives go on matching the same thing, either within the current
+    /// element or after it, then these are merged, since otherwise the number of alternatives
+    /// might double with every level of nesting.
+    fn after_choice(&self, left: PatId, p1: PatId, p2: PatId, right: PatId) -> PatId {
+        let Some((leaf, merged)) = self.merge_after(p1, p2, right) else {
+            return self.push(Pat::Choice(left, right, false));
+        };
+        match self.without_leaves(right, &HashSet::from([leaf])) {
+            None => merged,
+            Some(rest) => self.choice(merged, rest),
+        }
+    }
+    fn merge_after(&self, p1: PatId, p2: PatId, id: PatId) -> Option<(PatId, PatId)> {
+        match self.patt(id) {
+            Pat::Choice(l, r, _) => self
+                .merge_after(p1, p2, l)
+                .or_else(|| self.merge_after(p1, p2, r)),
+            Pat::After(other1, other2) if p1 == other1 => {
+                Some((id, self.after(p1, self.choice(p2, other2))))
+            }
+            Pat::After(other1, other2) if p2 == other2 => {
+                Some((id, self.after(self.choice(p1, other1), p2)))
+            }
+            _ => None,
+        }
+    }
+    fn is_after_choice(&self, id: PatId) -> bool {
+        match self.patt(id) {
+            Pat::Choice(l, _, _) => self.is_after_choice(l),
+            Pat::After(_, _) => true,
+            _ => false,
+        }
+    }
     fn choice_leaves(&self, id: PatId, leaves: &mut HashSet<PatId>) {
         match self.patt(id) {
             Pat::Choice(l, r, _) => {
-- 
2.43.0


From 802a5debaea53e1d342f752715d7e9f145851607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 41/58] fix: report documents that can't be read, rather than
 panicking

---
 relaxng-tool/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/relaxng-tool/src/main.rs b/relaxng-tool/src/main.rs
index 7028499..d9a5884 100644
--- a/relaxng-tool/src/main.rs
+++ b/relaxng-tool/src/main.rs
@@ -1,8 +1,6 @@
 use relaxng_model::Compiler;
 use relaxng_validator::Validator;
 
-use std::fs::File;
-use std::io::Read;
 use std::path::PathBuf;
 use std::process::exit;
 
@@ -29,9 +27,13 @@ fn validate(schema: PathBuf, xmls: Vec<PathBuf>) {
         }
     };
     for xml in xmls {
-        let mut f = File::open(&xml).expect("open example xml");
-        let mut doc = String::new();
-        f.read_to_string(&mut doc).expect("read xml");
+        let doc = match std::fs::read_to_string(&xml) {
+            Ok(doc) => doc,
+            Err(err) => {
+                eprintln!("error: {}: {err}", xml.display());
+                exit(2);
+            }
+        };
         let src = doc.clone();
         let reader = xmlparser::Tokenizer::from(&src[..]);
         let mut v = Validator::new(model.clone(), reader);
-- 
2.43.0


From 0fb7af827ea50b47a66316dcf3bf112f558bb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 42/58] fix: locate undefined references, and parent references
 without parent

References in nested grammars were located at the whole grammar, those in
definitions that aren't used at the start of the root file, and parent
references without a parent in the root file, even for references in an
included file (which would panic, should the root file be shorter).
---
 relaxng-model/src/lib.rs | 109 ++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 59 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 81fcf51..f8f8259 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -176,6 +176,8 @@ enum Context<'a> {
     Root {
         file: Arc<codemap::File>,
         refs: RefCell<HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>>,
+        // where each name is referenced first
+        ref_spans: RefCell<HashMap<String, codemap::Span>>,
         namespaces: HashMap<String, String>,
         // None until there is a declaration of the default namespace
         default_namespace: Option<String>,
@@ -204,6 +206,8 @@ enum Context<'a> {
     Grammar {
         parent: &'a Context<'a>,
         refs: RefCell<HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>>,
+        // where each name is referenced first
+        ref_spans: RefCell<HashMap<String, codemap::Span>>,
     },
     // We track the context of a definition since the body of that definition must not reference
     // the identifier being defined, unless the reference is in the body of an element definition
@@ -239,6 +243,7 @@ impl<'a> Context<'a> {
         Context::Root {
             file,
             refs: RefCell::new(HashMap::new()),
+            ref_spans: RefCell::new(HashMap::new()),
             namespaces,
             default_namespace: None,
             datatypes,
@@ -302,6 +307,7 @@ impl<'a> Context<'a> {
         Context::Grammar {
             parent: self,
             refs: RefCell::new(HashMap::new()),
+            ref_spans: RefCell::new(HashMap::new()),
         }
     }
 
@@ -601,52 +607,75 @@ impl<'a> Context<'a> {
         }
     }
 
-    /// The (alphabetically) first name that is referenced in this grammar, but not defined
-    fn undefined_name(&self) -> Option<String> {
-        self.ref_iter()
+    /// Checks that all names referenced in this grammar are defined, reporting the first reference
+    /// to one that isn't
+    fn check_references_defined(&self) -> Result<(), RelaxError> {
+        let (Context::Root { ref_spans, .. } | Context::Grammar { ref_spans, .. }) = self else {
+            panic!("check_references_defined() only valid for root or grammar context")
+        };
+        let ref_spans = ref_spans.borrow();
+        let undefined = self
+            .ref_iter()
             .filter(|(_, r)| r.borrow().is_none())
-            .map(|(name, _)| name)
-            .min()
+            .filter_map(|(name, _)| ref_spans.get(&name).map(|span| (*span, name)))
+            .min_by_key(|(span, _)| span.low());
+        match undefined {
+            Some((span, identifier)) => Err(RelaxError::UndefinedReference { span, identifier }),
+            None => Ok(()),
+        }
     }
 
     fn acquire_ref(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
         self.check_ref_recursion(ref_id)?;
-        self.acquire_ref_impl(ref_id)
+        Ok(self.acquire_ref_impl(&ref_id.1, self.convert_span(&ref_id.0)))
     }
-    fn acquire_ref_impl(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+    fn acquire_ref_impl(&self, name: &str, span: codemap::Span) -> model::PatRef {
         match self {
-            Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
+            Context::Root {
+                refs, ref_spans, ..
+            }
+            | Context::Grammar {
+                refs, ref_spans, ..
+            } => {
+                ref_spans
+                    .borrow_mut()
+                    .entry(name.to_string())
+                    .or_insert(span);
                 let mut refs = refs.borrow_mut();
-                if let Some(r) = refs.get(&ref_id.1) {
-                    Ok(model::PatRef(r.clone()))
+                if let Some(r) = refs.get(name) {
+                    model::PatRef(r.clone())
                 } else {
                     let r = Rc::new(RefCell::new(None));
-                    refs.insert(ref_id.1.to_string(), r.clone());
-                    Ok(model::PatRef(r))
+                    refs.insert(name.to_string(), r.clone());
+                    model::PatRef(r)
                 }
             }
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_ref_impl(ref_id),
+            | Context::Attribute { parent, .. } => parent.acquire_ref_impl(name, span),
         }
     }
 
     fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+        self.acquire_parent_ref_impl(&id.1, self.convert_span(&id.0))
+    }
+    fn acquire_parent_ref_impl(
+        &self,
+        name: &str,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
         match self {
-            Context::Root { .. } => {
-                let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
-                Err(RelaxError::NoParentAvailable(span))
-            }
+            Context::Root { .. } => Err(RelaxError::NoParentAvailable(span)),
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
+            | Context::Attribute { parent, .. } => parent.acquire_parent_ref_impl(name, span),
             // the definition may well refer to itself here, from within the content of an element of
             // this grammar; that's left for RecursionCheck to decide
-            Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
+            Context::Grammar { parent, .. } => Ok(parent.acquire_ref_impl(name, span)),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
@@ -792,25 +821,7 @@ impl<FS: Files> Compiler<FS> {
         let (file, schema) = self.get_schema(name)?;
         let mut ctx = Context::new(file.clone());
         self.compile_schema(&mut ctx, schema)?;
-        let mut rules: Vec<_> = ctx.ref_iter().collect();
-        // report errors in the order of the definitions
-        rules.sort_by_key(|(name, r)| {
-            (
-                r.borrow().as_ref().map(|rule| rule.span().low()),
-                name.clone(),
-            )
-        });
-        for (_, r) in rules.iter() {
-            if let Some(rule) = r.borrow().as_ref() {
-                check_references_defined(&mut HashSet::new(), rule.pattern())?;
-            }
-        }
-        if let Some(identifier) = ctx.undefined_name() {
-            return Err(RelaxError::UndefinedReference {
-                span: file.span.subspan(0, 0),
-                identifier,
-            });
-        }
+        ctx.check_references_defined()?;
         if let Some(start) = ctx.get_ref("start") {
             if let Some(rule) = start.borrow().as_ref() {
                 RecursionCheck::default().check(rule.pattern())?;
@@ -1749,10 +1760,7 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<model::Pattern, RelaxError> {
         let mut child_ctx = ctx.new_grammar();
         self.compile_grammar_contents(&mut child_ctx, content)?;
-        if let Some(identifier) = child_ctx.undefined_name() {
-            // TODO: retain span information for references so that we don't report bogus data
-            return Err(RelaxError::UndefinedReference { span, identifier });
-        }
+        child_ctx.check_references_defined()?;
         let start = child_ctx
             .get_ref("start")
             .ok_or(RelaxError::StartRuleNotDefined { span })?;
@@ -2051,23 +2059,6 @@ fn each_child<'p>(
     }
 }
 
-fn check_references_defined(seen: &mut HashSet<usize>, patt: &Pattern) -> Result<(), RelaxError> {
-    if let Pattern::Ref(span, name, def) = patt {
-        match def.0.borrow().as_ref() {
-            Some(rule) if seen.insert(def.0.as_ptr() as usize) => {
-                check_references_defined(seen, rule.pattern())
-            }
-            Some(_) => Ok(()),
-            None => Err(RelaxError::UndefinedReference {
-                span: *span,
-                identifier: name.to_string(),
-            }),
-        }
-    } else {
-        each_child(patt, &mut |p| check_references_defined(seen, p))
-    }
-}
-
 /// Checks that no definition refers to itself, via any number of other definitions, other than from
 /// within the content of an element.
 #[derive(Default)]
-- 
2.43.0


From 722a21cbb8dc4387ec62cb0804097b0c6ee9bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 43/58] fix: memoize all derivatives

A definition that is referred to several times, by definitions which are themselves
referred to several times, took time exponential in the number of such levels, since only
att_deriv() remembered the derivatives of shared patterns.
---
 relaxng-validator/src/lib.rs | 195 +++++++++++++++++++----------------
 1 file changed, 108 insertions(+), 87 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index bc8a0b3..4a91733 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -126,7 +126,7 @@ impl Schema {
             (_, _) => {
                 let mut leaves = HashSet::new();
                 self.choice_leaves(right, &mut leaves);
-                match self.without_leaves(left, &leaves) {
+                match self.without_leaves(&mut HashMap::new(), left, &leaves) {
                     None => right,
                     Some(left) => {
                         let nullable =
@@ -146,7 +146,7 @@ impl Schema {
         let Some((leaf, merged)) = self.merge_after(p1, p2, right) else {
             return self.push(Pat::Choice(left, right, false));
         };
-        match self.without_leaves(right, &HashSet::from([leaf])) {
+        match self.without_leaves(&mut HashMap::new(), right, &HashSet::from([leaf])) {
             None => merged,
             Some(rest) => self.choice(merged, rest),
         }
@@ -172,24 +172,34 @@ impl Schema {
             _ => false,
         }
     }
+    /// Adds all choice-leaves of a pattern, and the choices which they are leaves of
     fn choice_leaves(&self, id: PatId, leaves: &mut HashSet<PatId>) {
-        match self.patt(id) {
-            Pat::Choice(l, r, _) => {
-                self.choice_leaves(l, leaves);
-                self.choice_leaves(r, leaves);
-            }
-            _ => {
-                leaves.insert(id);
-            }
+        if !leaves.insert(id) {
+            return;
+        }
+        if let Pat::Choice(l, r, _) = self.patt(id) {
+            self.choice_leaves(l, leaves);
+            self.choice_leaves(r, leaves);
         }
     }
     /// Removes the given choice-leaves from a pattern, returning None if nothing is left
-    fn without_leaves(&self, id: PatId, leaves: &HashSet<PatId>) -> Option<PatId> {
+    fn without_leaves(
+        &self,
+        memo: &mut HashMap<PatId, Option<PatId>>,
+        id: PatId,
+        leaves: &HashSet<PatId>,
+    ) -> Option<PatId> {
+        if leaves.contains(&id) {
+            return None;
+        }
+        if let Some(result) = memo.get(&id) {
+            return *result;
+        }
         match self.patt(id) {
             Pat::Choice(l, r, _) => {
-                match (
-                    self.without_leaves(l, leaves),
-                    self.without_leaves(r, leaves),
+                let result = match (
+                    self.without_leaves(memo, l, leaves),
+                    self.without_leaves(memo, r, leaves),
                 ) {
                     (None, None) => None,
                     (None, Some(id)) | (Some(id), None) => Some(id),
@@ -198,9 +208,10 @@ impl Schema {
                         let nullable = self.patt(l).is_nullable() || self.patt(r).is_nullable();
                         Some(self.push(Pat::Choice(l, r, nullable)))
                     }
-                }
+                };
+                memo.insert(id, result);
+                result
             }
-            _ if leaves.contains(&id) => None,
             _ => Some(id),
         }
     }
@@ -783,7 +794,7 @@ impl<'a> Validator<'a> {
     }
 
     fn validate(&mut self, evt: Token<'a>) -> Result<(), ValidatorError<'a>> {
-        let pat = self.schema.patt(self.current_step);
+        let pat = self.current_step;
         let new = match evt {
             Token::EmptyDtd { .. }
             | Token::Comment { .. }
@@ -943,8 +954,12 @@ impl<'a> Validator<'a> {
         } else if is_whitespace_str(&text) {
             return Ok(());
         } else {
-            let pat = self.schema.patt(self.current_step);
-            Self::text_deriv(pat, &mut self.schema, &text)
+            Self::text_deriv(
+                &mut HashMap::new(),
+                self.current_step,
+                &mut self.schema,
+                &text,
+            )
         };
         match (self.schema.patt(new), token) {
             (Pat::NotAllowed, Some(token)) => Err(ValidatorError::NotAllowed(token)),
@@ -957,10 +972,9 @@ impl<'a> Validator<'a> {
 
     /// The derivative for the content of an element which has no child elements
     fn only_text_deriv(current: PatId, schema: &mut Schema, text: &str) -> PatId {
-        let pat = schema.patt(current);
         // "The case where the list of children is empty is treated as if there were a text node
         //  whose value were the empty string."
-        let d = Self::text_deriv(pat, schema, text);
+        let d = Self::text_deriv(&mut HashMap::new(), current, schema, text);
         if is_whitespace_str(text) {
             schema.choice(current, d)
         } else {
@@ -972,10 +986,10 @@ impl<'a> Validator<'a> {
         stack: &ElementStack<'b>,
         schema: &mut Schema,
         evt: Token<'b>,
-        pat: Pat,
+        pat: PatId,
     ) -> Result<PatId, ValidatorError<'b>> {
         let (name, start_token) = stack.current_element()?;
-        let next_pat = Self::start_tag_open_deriv(pat, schema, name);
+        let next_pat = Self::start_tag_open_deriv(&mut HashMap::new(), pat, schema, name);
         // TODO: refactor early-returns
         let next_pat = match schema.patt(next_pat) {
             Pat::NotAllowed => {
@@ -1001,7 +1015,7 @@ impl<'a> Validator<'a> {
         };
         let next_pat = match schema.patt(next_pat) {
             Pat::NotAllowed => return Err(ValidatorError::NotAllowed(evt)),
-            _p => Self::start_tag_close_deriv(next_pat, schema),
+            _p => Self::start_tag_close_deriv(&mut HashMap::new(), next_pat, schema),
         };
         Ok(match schema.patt(next_pat) {
             Pat::NotAllowed => return Err(ValidatorError::NotAllowed(evt)),
@@ -1009,48 +1023,46 @@ impl<'a> Validator<'a> {
         })
     }
 
-    fn text_deriv(current: Pat, schema: &mut Schema, text: &str) -> PatId {
-        // TODO: do we need to memoize here per att_deriv() ?
-        match current {
+    fn text_deriv(
+        memo: &mut HashMap<PatId, PatId>,
+        pat: PatId,
+        schema: &mut Schema,
+        text: &str,
+    ) -> PatId {
+        if let Some(result) = memo.get(&pat) {
+            return *result;
+        }
+        let v = match schema.patt(pat) {
             Pat::Choice(p1, p2, _) => {
-                let p1 = schema.patt(p1);
-                let p2 = schema.patt(p2);
-                let a = Self::text_deriv(p1, schema, text);
-                let b = Self::text_deriv(p2, schema, text);
+                let a = Self::text_deriv(memo, p1, schema, text);
+                let b = Self::text_deriv(memo, p2, schema, text);
                 schema.choice(a, b)
             }
             Pat::Interleave(p1, p2, _) => {
-                let pat1 = schema.patt(p1);
-                let pat2 = schema.patt(p2);
-
-                let d1 = Self::text_deriv(pat1, schema, text);
+                let d1 = Self::text_deriv(memo, p1, schema, text);
                 let a = schema.interleave(d1, p2);
 
-                let d2 = Self::text_deriv(pat2, schema, text);
+                let d2 = Self::text_deriv(memo, p2, schema, text);
                 let b = schema.interleave(p1, d2);
                 schema.choice(a, b)
             }
             Pat::Group(p1, p2, _) => {
-                let pat1 = schema.patt(p1);
-                let nullable = pat1.is_nullable();
-                let pat2 = schema.patt(p2);
-                let d1 = Self::text_deriv(pat1, schema, text);
+                let nullable = schema.patt(p1).is_nullable();
+                let d1 = Self::text_deriv(memo, p1, schema, text);
                 let p = schema.group(d1, p2);
                 if nullable {
-                    let d2 = Self::text_deriv(pat2, schema, text);
+                    let d2 = Self::text_deriv(memo, p2, schema, text);
                     schema.choice(p, d2)
                 } else {
                     p
                 }
             }
             Pat::After(p1, p2) => {
-                let pat1 = schema.patt(p1);
-                let d = Self::text_deriv(pat1, schema, text);
+                let d = Self::text_deriv(memo, p1, schema, text);
                 schema.after(d, p2)
             }
             Pat::OneOrMore(p, _) => {
-                let pat = schema.patt(p);
-                let d = Self::text_deriv(pat, schema, text);
+                let d = Self::text_deriv(memo, p, schema, text);
                 schema.group(d, schema.choice(schema.one_or_more(p), schema.empty()))
             }
             Pat::Text => schema.text(),
@@ -1069,8 +1081,7 @@ impl<'a> Validator<'a> {
                 }
             }
             Pat::DatatypeExcept(dt, except) => {
-                let pat = schema.patt(except);
-                let d = Self::text_deriv(pat, schema, text);
+                let d = Self::text_deriv(memo, except, schema, text);
                 let pat2 = schema.patt(d);
                 if dt.is_valid(text) && !pat2.is_nullable() {
                     schema.empty()
@@ -1081,8 +1092,7 @@ impl<'a> Validator<'a> {
             Pat::List(p) => {
                 let mut p = p;
                 for item in text.split(is_whitespace_char).filter(|item| !item.is_empty()) {
-                    let pat = schema.patt(p);
-                    p = Self::text_deriv(pat, schema, item);
+                    p = Self::text_deriv(&mut HashMap::new(), p, schema, item);
                     if let Pat::NotAllowed = schema.patt(p) {
                         return p;
                     }
@@ -1097,49 +1107,51 @@ impl<'a> Validator<'a> {
                 schema.not_allowed()
             }
             Pat::Placeholder(ptr, _) => unreachable!("Placeholder {:?}", ptr),
-        }
+        };
+        memo.insert(pat, v);
+        v
     }
 
-    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName<'_>) -> PatId {
-        match current {
+    fn start_tag_open_deriv(
+        memo: &mut HashMap<PatId, PatId>,
+        pat: PatId,
+        schema: &mut Schema,
+        name: QualifiedName<'_>,
+    ) -> PatId {
+        if let Some(result) = memo.get(&pat) {
+            return *result;
+        }
+        let v = match schema.patt(pat) {
             Pat::Choice(l, r, _) => {
-                let left = schema.patt(l);
-                let right = schema.patt(r);
-                let d1 = Self::start_tag_open_deriv(left, schema, name);
-                let d2 = Self::start_tag_open_deriv(right, schema, name);
+                let d1 = Self::start_tag_open_deriv(memo, l, schema, name);
+                let d2 = Self::start_tag_open_deriv(memo, r, schema, name);
                 schema.choice(d1, d2)
             }
             Pat::OneOrMore(pid, _) => {
-                let p = schema.patt(pid);
-                let deriv = Self::start_tag_open_deriv(p, schema, name);
+                let deriv = Self::start_tag_open_deriv(memo, pid, schema, name);
                 Self::apply_after(schema.patt(deriv), schema, |pat, schema| {
                     schema.group(pat, schema.choice(schema.one_or_more(pid), schema.empty()))
                 })
             }
             Pat::Interleave(pid1, pid2, _) => {
-                let p1 = schema.patt(pid1);
-                let p2 = schema.patt(pid2);
-                let d1 = Self::start_tag_open_deriv(p1, schema, name);
+                let d1 = Self::start_tag_open_deriv(memo, pid1, schema, name);
                 let c1 = Self::apply_after(schema.patt(d1), schema, |pat, schema| {
                     schema.interleave(pat, pid2)
                 });
-                let d2 = Self::start_tag_open_deriv(p2, schema, name);
+                let d2 = Self::start_tag_open_deriv(memo, pid2, schema, name);
                 let c2 = Self::apply_after(schema.patt(d2), schema, |pat, schema| {
                     schema.interleave(pid1, pat)
                 });
                 schema.choice(c1, c2)
             }
             Pat::Group(pid1, pid2, _) => {
-                let p1 = schema.patt(pid1);
-                let nullable = p1.is_nullable();
-                let _p2 = schema.patt(pid2);
-                let d1 = Self::start_tag_open_deriv(p1, schema, name);
+                let nullable = schema.patt(pid1).is_nullable();
+                let d1 = Self::start_tag_open_deriv(memo, pid1, schema, name);
                 let x = Self::apply_after(schema.patt(d1), schema, |pat, schema| {
                     schema.group(pat, pid2)
                 });
                 if nullable {
-                    let p2 = schema.patt(pid2);
-                    let d2 = Self::start_tag_open_deriv(p2, schema, name);
+                    let d2 = Self::start_tag_open_deriv(memo, pid2, schema, name);
                     schema.choice(x, d2)
                 } else {
                     x
@@ -1154,8 +1166,7 @@ impl<'a> Validator<'a> {
                 }
             }
             Pat::After(pid1, pid2) => {
-                let p1 = schema.patt(pid1);
-                let d = Self::start_tag_open_deriv(p1, schema, name);
+                let d = Self::start_tag_open_deriv(memo, pid1, schema, name);
                 Self::apply_after(schema.patt(d), schema, |pat, schema| {
                     schema.after(pat, pid2)
                 })
@@ -1170,7 +1181,9 @@ impl<'a> Validator<'a> {
             | Pat::DatatypeExcept(_, _)
             | Pat::List(_) => schema.not_allowed(),
             Pat::Placeholder(ptr, _) => unreachable!("Placeholder {:?}", ptr),
-        }
+        };
+        memo.insert(pat, v);
+        v
     }
 
     // in the spec, the applyAfter() 'f' argument comes before the pattern, in rust it's more
@@ -1240,8 +1253,7 @@ impl<'a> Validator<'a> {
                 schema.group(s1, s2)
             }
             Pat::Attribute(ref nc, p) => {
-                let att_pat = schema.patt(p);
-                if contains(nc, att.name) && Self::value_match(att_pat, schema, att.value) {
+                if contains(nc, att.name) && Self::value_match(p, schema, att.value) {
                     schema.empty()
                 } else {
                     schema.not_allowed()
@@ -1253,44 +1265,53 @@ impl<'a> Validator<'a> {
         v
     }
 
-    fn value_match(pat: Pat, schema: &mut Schema, val: &str) -> bool {
+    fn value_match(pat_id: PatId, schema: &mut Schema, val: &str) -> bool {
+        let pat = schema.patt(pat_id);
         if pat.is_nullable() && is_whitespace_str(val) {
             true
         } else {
-            let d = Self::text_deriv(pat, schema, val);
+            let d = Self::text_deriv(&mut HashMap::new(), pat_id, schema, val);
             schema.patt(d).is_nullable()
         }
     }
 
-    fn start_tag_close_deriv(pid: PatId, schema: &mut Schema) -> PatId {
-        let pat = schema.patt(pid);
-        match pat {
+    fn start_tag_close_deriv(
+        memo: &mut HashMap<PatId, PatId>,
+        pid: PatId,
+        schema: &mut Schema,
+    ) -> PatId {
+        if let Some(result) = memo.get(&pid) {
+            return *result;
+        }
+        let v = match schema.patt(pid) {
             Pat::After(p1, p2) => {
-                let a1 = Self::start_tag_close_deriv(p1, schema);
+                let a1 = Self::start_tag_close_deriv(memo, p1, schema);
                 schema.after(a1, p2)
             }
             Pat::Choice(p1, p2, _) => {
-                let c1 = Self::start_tag_close_deriv(p1, schema);
-                let c2 = Self::start_tag_close_deriv(p2, schema);
+                let c1 = Self::start_tag_close_deriv(memo, p1, schema);
+                let c2 = Self::start_tag_close_deriv(memo, p2, schema);
                 schema.choice(c1, c2)
             }
             Pat::Group(p1, p2, _) => {
-                let c1 = Self::start_tag_close_deriv(p1, schema);
-                let c2 = Self::start_tag_close_deriv(p2, schema);
+                let c1 = Self::start_tag_close_deriv(memo, p1, schema);
+                let c2 = Self::start_tag_close_deriv(memo, p2, schema);
                 schema.group(c1, c2)
             }
             Pat::Interleave(p1, p2, _) => {
-                let c1 = Self::start_tag_close_deriv(p1, schema);
-                let c2 = Self::start_tag_close_deriv(p2, schema);
+                let c1 = Self::start_tag_close_deriv(memo, p1, schema);
+                let c2 = Self::start_tag_close_deriv(memo, p2, schema);
                 schema.interleave(c1, c2)
             }
             Pat::OneOrMore(p, _) => {
-                let o = Self::start_tag_close_deriv(p, schema);
+                let o = Self::start_tag_close_deriv(memo, p, schema);
                 schema.one_or_more(o)
             }
             Pat::Attribute(_, _) => schema.not_allowed(),
             _ => pid,
-        }
+        };
+        memo.insert(pid, v);
+        v
     }
 
     fn end_tag_deriv(pat: Pat, schema: &mut Schema) -> PatId {
-- 
2.43.0


From abb44130afacf4e2722936638ccef5877a91bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 44/58] fix: reject duplicate and conflicting digit facets

---
 relaxng-model/src/datatype/xsd.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index cad4d54..13cd579 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1082,8 +1082,16 @@ impl Compiler {
                 "maxInclusive" => min_max.max_inclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigdecimal(ctx, param)?)?,
                 "pattern" => self.pattern(ctx, param, &mut pattern)?,
-                "fractionDigits" => fraction_digits = Some(Self::u16(ctx, param)?),
-                "totalDigits" => total_digits = Some(Self::u16(ctx, param)?),
+                "fractionDigits" => {
+                    if fraction_digits.replace(Self::u16(ctx, param)?).is_some() {
+                        return Err(FacetError::ConflictingFacet("duplicate fractionDigits"));
+                    }
+                }
+                "totalDigits" => {
+                    if total_digits.replace(Self::u16(ctx, param)?).is_some() {
+                        return Err(FacetError::ConflictingFacet("duplicate totalDigits"));
+                    }
+                }
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1093,6 +1101,14 @@ impl Compiler {
             }
         }
 
+        if let (Some(fraction_digits), Some(total_digits)) = (fraction_digits, total_digits) {
+            if fraction_digits > total_digits {
+                return Err(FacetError::ConflictingFacet(
+                    "fractionDigits greater than totalDigits",
+                ));
+            }
+        }
+
         Ok(XsdDatatypes::Decimal {
             min_max,
             pattern,
-- 
2.43.0


From 4f2538cd9c703a359e4a3cb16153d486f50108cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 45/58] fix: reject stray text in the XML syntax

---
 relaxng-syntax/src/xml.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 6d78673..1b47a4c 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -34,12 +34,31 @@ pub fn parse(text: &str) -> Result<Schema> {
         let end = line_start + line.len();
         Error::Xml(start..end, e.to_string())
     })?;
+    check_text(&doc)?;
     Ok(Schema {
         decls: vec![],
         pattern_or_grammar: pattern_or_grammar(doc.root_element())?,
     })
 }
 
+/// Text, other than whitespace, is only allowed in `<name>`, `<value>`, `<param>`, and in foreign
+/// elements
+fn check_text(doc: &roxmltree::Document) -> Result<()> {
+    let is_blank = |text: &str| text.trim_matches([' ', '\t', '\r', '\n']).is_empty();
+    for node in doc.descendants() {
+        if node.is_text()
+            && !node.text().is_some_and(is_blank)
+            && node.parent_element().is_some_and(|parent| {
+                !matches!(parent.tag_name().name(), "name" | "value" | "param")
+                    && parent.ancestors().all(|n| n.is_root() || is_rng_node(n))
+            })
+        {
+            return Err(Error::Unexpected(node.range(), "Text not allowed here"));
+        }
+    }
+    Ok(())
+}
+
 fn pattern_or_grammar(root: Node) -> Result<PatternOrGrammar> {
     match root.tag_name().namespace() {
         Some(NS) => {
@@ -121,7 +140,6 @@ fn check_standard_attrs(node: Node) -> Result<()> {
 
 fn first_rng_child<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, 'input>> {
     let mut child = node.first_element_child();
-    // TODO: error on non-whitespace text nodes?
     while let Some(node) = child {
         if is_rng_node(node) {
             return Some(node);
@@ -133,7 +151,6 @@ fn first_rng_child<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, 'i
 
 fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, 'input>> {
     let mut child = node.next_sibling_element();
-    // TODO: error on non-whitespace text nodes?
     while let Some(node) = child {
         if is_rng_node(node) {
             return Some(node);
-- 
2.43.0


From 12c5fb86330f5fc5e08803c8c351e5034e375a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 46/58] fix: locate unsupported datatype libraries of data
 patterns

---
 relaxng-model/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index f8f8259..8e8ca6c 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1911,7 +1911,7 @@ impl<FS: Files> Compiler<FS> {
             DatatypeName::Token => DatatypeName::Token,
             DatatypeName::CName(QName(namespace, name)) => DatatypeName::CName(QName(
                 NcName(
-                    0..0,
+                    namespace.0.clone(),
                     ctx.try_datatype_uri_for_prefix(namespace)?.to_string(),
                 ),
                 NcName(name.0.clone(), name.1.clone()),
-- 
2.43.0


From 8de76cde61b34348164ae64c6f75e246f6cf99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 47/58] fix: locate conflicting namespace declarations

---
 relaxng-model/src/lib.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 8e8ca6c..5bf85fe 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -409,9 +409,12 @@ impl<'a> Context<'a> {
         }
     }
 
-    fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
-        // FIXME: report the location of the declaration
-        let span = self.convert_span(&(0..0));
+    fn declare_namespace(
+        &mut self,
+        prefix: String,
+        uri: String,
+        span: codemap::Span,
+    ) -> Result<(), RelaxError> {
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 match namespaces.entry(prefix) {
@@ -1945,16 +1948,18 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<(), RelaxError> {
         match dec {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
+                let span = Self::declaration_span(ctx, uri);
                 let uri = Self::declared_namespace_uri(ctx, uri);
                 if let Some(p) = prefix {
-                    ctx.declare_namespace(p.clone(), uri.clone())?;
+                    ctx.declare_namespace(p.clone(), uri.clone(), span)?;
                 }
                 ctx.declare_default_namespace(uri);
                 Ok(())
             }
             types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => {
+                let span = Self::declaration_span(ctx, uri);
                 let uri = Self::declared_namespace_uri(ctx, uri);
-                ctx.declare_namespace(prefix.clone(), uri)
+                ctx.declare_namespace(prefix.clone(), uri, span)
             }
             types::Decl::Datatypes(types::DatatypesDeclaration { prefix, uri }) => {
                 ctx.declare_datatype(prefix.clone(), uri.as_string_value())
@@ -1962,6 +1967,14 @@ impl<FS: Files> Compiler<FS> {
         }
     }
 
+    fn declaration_span(ctx: &Context, uri: &NamespaceUriLiteral) -> codemap::Span {
+        match uri {
+            // FIXME: report the location of the declaration
+            NamespaceUriLiteral::Inherit => ctx.convert_span(&(0..0)),
+            NamespaceUriLiteral::Uri(uri) => ctx.convert_span(&uri.0),
+        }
+    }
+
     fn declared_namespace_uri(ctx: &Context, uri: &NamespaceUriLiteral) -> String {
         match uri {
             NamespaceUriLiteral::Inherit => ctx.inherited_namespace_uri().to_string(),
-- 
2.43.0


From 0d5f64a15d31a89db29c23e8c1b2da489c4e06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 48/58] fix: tell the duplicate of a definition from the
 original

---
 relaxng-model/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 5bf85fe..3774343 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1500,8 +1500,8 @@ impl<FS: Files> Compiler<FS> {
             (DefineRule::AssignCombine(this, _, _), DefineRule::AssignCombine(that, _, _)) => {
                 Err(RelaxError::DuplicateDefinition {
                     name: name.to_string(),
-                    duplicate: this,
-                    original: that,
+                    duplicate: that,
+                    original: this,
                 })
             }
             // choice-related cases,
-- 
2.43.0


From aaa2476f9735cd95c037500f554d490abed7931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 49/58] fix: reject elements within externalRef

---
 relaxng-syntax/src/xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 1b47a4c..1238578 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -602,6 +602,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
+    no_rng_element_children(node)?;
     let href =
         attribute_node(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
-- 
2.43.0


From 8ac18d27f778c3cf203efb4669a972da8d7b6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 50/58] fix: tell conflicting definitions from previous ones

---
 relaxng-model/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 3774343..afcfcef 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1605,8 +1605,9 @@ impl<FS: Files> Compiler<FS> {
                 DefineRule::CombineOnly(this_span, CombineRule::Interleave, _),
                 DefineRule::AssignCombine(that_span, Some(CombineRule::Choice), _),
             ) => Err(RelaxError::DefineRulesMixesChoiceAndInterleave {
-                this_span,
-                that_span,
+                // the first of the two is the one that was previously defined
+                this_span: that_span,
+                that_span: this_span,
             }),
         }
     }
-- 
2.43.0


From c2aa97496f60dd810f040219182f3f78676a92af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 51/58] fix: allow minExclusive to equal maxExclusive

XML Schema only requires that it's not greater.
---
 relaxng-model/src/datatype/xsd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 13cd579..dd29f88 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -524,7 +524,7 @@ where
                 }
             }
             Max::Exclusive(max) => {
-                if val >= *max {
+                if val > *max {
                     return Err(FacetError::ConflictingFacet(
                         "minExclusive conflicts with maxExclusive",
                     ));
@@ -586,7 +586,7 @@ where
                 }
             }
             Min::Exclusive(min) => {
-                if *min >= val {
+                if *min > val {
                     return Err(FacetError::ConflictingFacet(
                         "minInclusive conflicts with maxExclusive",
                     ));
-- 
2.43.0


From 2275968b77b7cf92c30bcca68451851a503f1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 52/58] fix: compact syntax: no space is needed before a quoted
 prefix in a declaration

---
 relaxng-syntax/src/compact.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 6232ee8..dfdb179 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -81,8 +81,8 @@ fn decl(input: Span) -> IResult<Span, Decl> {
 }
 fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
     let (input, (_keyword, _, prefix, _, _, _, uri)) = (
-        tag("namespace"),
-        space_comment1,
+        word("namespace"),
+        space_comment0,
         identifier_or_keyword,
         space_comment0,
         tag("="),
@@ -121,8 +121,8 @@ fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclarat
 }
 fn decl_datatypes(input: Span) -> IResult<Span, DatatypesDeclaration> {
     let (input, (_keyword, _, prefix, _, _, _, uri)) = (
-        tag("datatypes"),
-        space_comment1,
+        word("datatypes"),
+        space_comment0,
         identifier_or_keyword,
         space_comment0,
         tag("="),
-- 
2.43.0


From fa4d99a1ac13b30a50d74d6b4bd54939dabcdb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:11 +0000
Subject: [PATCH 53/58] fix: reject wildcards in the exceptions of wildcards

---
 relaxng-syntax/src/compact.rs | 32 +++++++++++++++++++++++++++++++-
 relaxng-syntax/src/xml.rs     | 24 ++++++++++++++++--------
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index dfdb179..d7286ac 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -9,7 +9,7 @@ use nom::{
     branch::alt,
     bytes::complete::{is_not, tag, take_until, take_while},
     character::complete::{char, multispace1, one_of},
-    combinator::{all_consuming, eof, map, not, opt, peek, recognize},
+    combinator::{all_consuming, eof, map, not, opt, peek, recognize, verify},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
     sequence::{delimited, terminated},
@@ -682,6 +682,12 @@ fn ns_name_nc(input: Span) -> IResult<Span, NsName> {
         opt((space_comment0, tag("-"), space_comment0, simple_name_class)),
     );
 
+    // a namespace name must not have an exception with any wildcard
+    let parse = verify(parse, |(_, _, except)| match except {
+        Some((_, _, _, name_class)) => !contains_wildcard(name_class, true),
+        None => true,
+    });
+
     let mut parser = map(parse, |(name, _, except)| NsName {
         name: NamespaceOrPrefix::Prefix(name),
         except: except.map(|(_, _, _, name_class)| Box::new(name_class)),
@@ -690,12 +696,36 @@ fn ns_name_nc(input: Span) -> IResult<Span, NsName> {
     parser.parse(input)
 }
 
+fn contains_wildcard(name_class: &NameClass, or_ns_name: bool) -> bool {
+    match name_class {
+        NameClass::Name(_) => false,
+        NameClass::NsName(ns_name) => {
+            or_ns_name
+                || ns_name
+                    .except
+                    .as_ref()
+                    .is_some_and(|nc| contains_wildcard(nc, or_ns_name))
+        }
+        NameClass::AnyName(_) => true,
+        NameClass::Alt(AltName(a, b)) => {
+            contains_wildcard(a, or_ns_name) || contains_wildcard(b, or_ns_name)
+        }
+        NameClass::Paren(ParenName(nc)) => contains_wildcard(nc, or_ns_name),
+    }
+}
+
 fn any_name_nc(input: Span) -> IResult<Span, AnyName> {
     let parse = (
         tag("*"),
         opt((space_comment0, tag("-"), space_comment0, simple_name_class)),
     );
 
+    // any name must not have an exception with any name
+    let parse = verify(parse, |(_, except)| match except {
+        Some((_, _, _, name_class)) => !contains_wildcard(name_class, false),
+        None => true,
+    });
+
     let mut parser = map(parse, |(_, except)| {
         AnyName(except.map(|(_, _, _, name_class)| Box::new(name_class)))
     });
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 1238578..fcf2fae 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -205,6 +205,7 @@ fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error>
 #[derive(PartialEq, Clone, Copy)]
 enum InExcept {
     InsideExcept,
+    InsideNsNameExcept,
     OutsideExcept,
 }
 
@@ -215,7 +216,7 @@ fn name_class(node: Node, in_except: InExcept) -> Result<NameClass> {
         match node.tag_name().name() {
             "name" => qname_el(node).map(NameClass::Name),
             "anyName" => {
-                if in_except == InExcept::InsideExcept {
+                if in_except != InExcept::OutsideExcept {
                     return Err(Error::Unexpected(
                         node.range(),
                         "<anyName> not allowed in <except>",
@@ -223,7 +224,15 @@ fn name_class(node: Node, in_except: InExcept) -> Result<NameClass> {
                 }
                 any_name(node).map(NameClass::AnyName)
             }
-            "nsName" => ns_name(node).map(NameClass::NsName),
+            "nsName" => {
+                if in_except == InExcept::InsideNsNameExcept {
+                    return Err(Error::Unexpected(
+                        node.range(),
+                        "<nsName> not allowed in <except> of <nsName>",
+                    ));
+                }
+                ns_name(node).map(NameClass::NsName)
+            }
             "choice" => name_class_choice(node, in_except),
             _ => Err(Error::Expected(
                 node.range(),
@@ -247,7 +256,7 @@ fn any_name(node: Node) -> Result<AnyName> {
                     "No other elements allowed here",
                 ));
             }
-            Some(except_nameclass(ex)?)
+            Some(except_nameclass(ex, InExcept::InsideExcept)?)
         } else {
             return Err(Error::Unexpected(ex.range(), "Only <except> allowed here"));
         }
@@ -257,17 +266,16 @@ fn any_name(node: Node) -> Result<AnyName> {
     Ok(AnyName(except.map(Box::new)))
 }
 
-fn except_nameclass(node: Node) -> Result<NameClass> {
+fn except_nameclass(node: Node, in_except: InExcept) -> Result<NameClass> {
     let mut child =
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Expected name-class child"))?;
-    let mut pat = name_class(child, InExcept::InsideExcept)?;
+    let mut pat = name_class(child, in_except)?;
     while let Some(node) = next_rng_sibling(child) {
-        let this = name_class(node, InExcept::InsideExcept)?;
+        let this = name_class(node, in_except)?;
         pat = NameClass::Alt(AltName(Box::new(pat), Box::new(this)));
         child = node;
     }
     Ok(pat)
-    // TODO: check that no child is <anyName>
 }
 
 fn ns_name(node: Node) -> Result<NsName> {
@@ -280,7 +288,7 @@ fn ns_name(node: Node) -> Result<NsName> {
                     "No other elements allowed here",
                 ));
             }
-            Some(except_nameclass(ex)?)
+            Some(except_nameclass(ex, InExcept::InsideNsNameExcept)?)
         } else {
             return Err(Error::Unexpected(ex.range(), "Only <except> allowed here"));
         }
-- 
2.43.0


From 53892d68b5c99a576cfb33c7176112cd27419740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 54/58] fix: XML syntax: reject unexpected attributes on any
 element of the schema

---
 relaxng-syntax/src/xml.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index fcf2fae..8fbcd1e 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -195,7 +195,7 @@ fn tag_name_range(node: Node) -> Range<usize> {
 fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error> {
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && !names.contains(&a.name()))
+        .find(|a| is_rng(a.namespace()) || is_rng_att(a) && !names.contains(&a.name()))
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -248,6 +248,7 @@ fn name_class(node: Node, in_except: InExcept) -> Result<NameClass> {
 }
 
 fn any_name(node: Node) -> Result<AnyName> {
+    no_attrs(node)?;
     let except = if let Some(ex) = first_rng_child(node) {
         if is_el(ex, "except") {
             if let Some(next) = next_rng_sibling(ex) {
@@ -267,6 +268,7 @@ fn any_name(node: Node) -> Result<AnyName> {
 }
 
 fn except_nameclass(node: Node, in_except: InExcept) -> Result<NameClass> {
+    no_attrs(node)?;
     let mut child =
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Expected name-class child"))?;
     let mut pat = name_class(child, in_except)?;
@@ -279,6 +281,7 @@ fn except_nameclass(node: Node, in_except: InExcept) -> Result<NameClass> {
 }
 
 fn ns_name(node: Node) -> Result<NsName> {
+    no_attrs(node)?;
     let ns = get_ns(node);
     let except = if let Some(ex) = first_rng_child(node) {
         if is_el(ex, "except") {
@@ -338,6 +341,7 @@ fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'
 }
 
 fn name_class_choice(node: Node, in_except: InExcept) -> Result<NameClass> {
+    no_attrs(node)?;
     let mut child = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
     let mut name = name_class(child, in_except)?;
     while let Some(node) = next_rng_sibling(child) {
@@ -409,12 +413,14 @@ fn attribute(node: Node) -> Result<AttributePattern> {
 }
 
 fn group(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
     Ok(Pattern::Group(Box::new(patt)))
 }
 fn interleave(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let mut child = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
     let mut pat = pattern(child)?;
     while let Some(next) = next_rng_sibling(child) {
@@ -426,6 +432,7 @@ fn interleave(node: Node) -> Result<Pattern> {
 }
 
 fn choice(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let mut child = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
     let mut pat = pattern(child)?;
     while let Some(node) = next_rng_sibling(child) {
@@ -437,6 +444,7 @@ fn choice(node: Node) -> Result<Pattern> {
 }
 
 fn optional(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -444,6 +452,7 @@ fn optional(node: Node) -> Result<Pattern> {
 }
 
 fn zero_or_more(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -451,6 +460,7 @@ fn zero_or_more(node: Node) -> Result<Pattern> {
 }
 
 fn one_or_more(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -458,6 +468,7 @@ fn one_or_more(node: Node) -> Result<Pattern> {
 }
 
 fn list(node: Node) -> Result<ListPattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -465,6 +476,7 @@ fn list(node: Node) -> Result<ListPattern> {
 }
 
 fn mixed(node: Node) -> Result<MixedPattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -472,6 +484,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 }
 
 fn ref_patt(node: Node) -> Result<Identifier> {
+    no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     no_rng_element_children(node)?;
     if let Some(name) = attribute_node(node, "name") {
         definition_name(&name)
@@ -481,6 +494,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 }
 
 fn parent_ref(node: Node) -> Result<Identifier> {
+    no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     no_rng_element_children(node)?;
     if let Some(name) = attribute_node(node, "name") {
         definition_name(&name)
@@ -502,6 +516,7 @@ fn text(node: Node) -> Result<Pattern> {
 }
 
 fn value(node: Node) -> Result<DatatypeValuePattern> {
+    no_attrs_except(node, &["type", "ns", "datatypeLibrary"])?;
     no_element_children(node)?;
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
@@ -542,6 +557,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         if !is_el(node, "except") {
             return Err(Error::Unexpected(node.range(), "Unexpected element"));
         }
+        no_attrs(node)?;
         let except_patt =
             first_rng_child(node).ok_or(Error::Expected(node.range(), "child pattern element"))?;
         (
@@ -588,6 +604,7 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
+    no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let name =
         attribute_node(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
@@ -610,6 +627,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
+    no_attrs_except(node, &["href", "ns", "datatypeLibrary"])?;
     no_rng_element_children(node)?;
     let href =
         attribute_node(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
@@ -625,6 +643,7 @@ fn external_ref(node: Node) -> Result<ExternalPattern> {
 }
 
 fn grammar(node: Node) -> Result<GrammarPattern> {
+    no_attrs(node)?;
     let mut next = first_rng_child(node);
     let mut content = vec![];
     while let Some(child) = next {
@@ -693,6 +712,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
+    no_attrs_except(node, &["name", "combine", "ns", "datatypeLibrary"])?;
     let combine = if let Some(combine) = attribute_node(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
@@ -719,6 +739,7 @@ fn define(node: Node) -> Result<Define> {
 }
 
 fn div_grammar_content(node: Node) -> Result<GrammarContent> {
+    no_attrs(node)?;
     let mut next = first_rng_child(node);
     let mut content = vec![];
     while let Some(child) = next {
@@ -782,6 +803,7 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
+    no_attrs_except(node, &["href", "ns", "datatypeLibrary"])?;
     let href =
         attribute_node(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
@@ -822,6 +844,7 @@ fn include_content(node: Node) -> Result<IncludeContent> {
 }
 
 fn div_include_content(node: Node) -> Result<IncludeContent> {
+    no_attrs(node)?;
     let mut next = first_rng_child(node);
     let mut content = vec![];
     while let Some(child) = next {
@@ -837,6 +860,7 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name>
 }
 
 fn qname_el(name: Node) -> Result<Name> {
+    no_attrs(name)?;
     no_element_children(name)?;
     qname(name, text_range(name), &text_content(name), get_ns(name))
 }
-- 
2.43.0


From 66bbfe03fa365dcd3b1d8ef6b8e9b5536bb140d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 55/58] fix: XML syntax: check datatypeLibrary on any element
 of the schema

---
 relaxng-syntax/src/xml.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 8fbcd1e..55b1923 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -81,7 +81,6 @@ const NS: &str = "http://relaxng.org/ns/structure/1.0";
 
 fn pattern(node: Node) -> Result<Pattern> {
     if node.is_element() && node.tag_name().namespace() == Some(NS) {
-        check_standard_attrs(node)?;
         match node.tag_name().name() {
             "element" => element(node).map(Pattern::Element),
             "attribute" => attribute(node).map(Pattern::Attribute),
@@ -199,7 +198,7 @@ fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error>
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
-    Ok(())
+    check_standard_attrs(node)
 }
 
 #[derive(PartialEq, Clone, Copy)]
-- 
2.43.0


From 21d45212a6977f13a4af8def32769321d3be2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:35 +0000
Subject: [PATCH 56/58] fix: XML syntax: only whitespace of XML may surround
 names

---
 relaxng-syntax/src/xml.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 55b1923..113d938 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -44,7 +44,7 @@ pub fn parse(text: &str) -> Result<Schema> {
 /// Text, other than whitespace, is only allowed in `<name>`, `<value>`, `<param>`, and in foreign
 /// elements
 fn check_text(doc: &roxmltree::Document) -> Result<()> {
-    let is_blank = |text: &str| text.trim_matches([' ', '\t', '\r', '\n']).is_empty();
+    let is_blank = |text: &str| trim(text).is_empty();
     for node in doc.descendants() {
         if node.is_text()
             && !node.text().is_some_and(is_blank)
@@ -201,6 +201,11 @@ fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error>
     check_standard_attrs(node)
 }
 
+/// Without the whitespace (as XML has it) around it
+fn trim(val: &str) -> &str {
+    val.trim_matches([' ', '\t', '\r', '\n'])
+}
+
 #[derive(PartialEq, Clone, Copy)]
 enum InExcept {
     InsideExcept,
@@ -521,7 +526,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_name = attribute_node(node, "type")
-        .map(|attr| ncname(attr.range_value(), attr.value()))
+        .map(|attr| ncname(attr.range_value(), trim(attr.value())))
         .transpose()?;
     let val = Literal::new(text_range(node), text_content(node));
     Ok(DatatypeValuePattern(
@@ -543,7 +548,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         attribute_node(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = DatatypeName::NamespacedName(NamespacedName {
         namespace_uri: datatype_ns,
-        localname: ncname(type_attr.range_value(), type_attr.value())?,
+        localname: ncname(type_attr.range_value(), trim(type_attr.value()))?,
     });
     no_attrs_except(node, &["type", "ns", "datatypeLibrary"])?;
 
@@ -680,7 +685,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 
 fn start(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = attribute_node(node, "combine") {
-        match combine.value().trim() {
+        match trim(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -713,7 +718,7 @@ fn start(node: Node) -> Result<Define> {
 fn define(node: Node) -> Result<Define> {
     no_attrs_except(node, &["name", "combine", "ns", "datatypeLibrary"])?;
     let combine = if let Some(combine) = attribute_node(node, "combine") {
-        match combine.value().trim() {
+        match trim(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -754,7 +759,7 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     if attr.value().contains(':') {
         Err(Error::Unexpected(attr.range_value(), "Colon in NCName"))
     } else {
-        ident(attr.range_value(), attr.value().trim())
+        ident(attr.range_value(), attr.value())
     }
 }
 
@@ -866,8 +871,9 @@ fn qname_el(name: Node) -> Result<Name> {
 
 /// The namespace to be used for names without a prefix is `ns`
 fn qname(node: Node, range: Range<usize>, val: &str, ns: Option<Literal>) -> Result<Name> {
+    let val = trim(val);
     let (namespace_uri, localname) = if let Some((prefix, localname)) = val.split_once(':') {
-        let namespace = lookup_namespace_def(node, Some(prefix.trim()))
+        let namespace = lookup_namespace_def(node, Some(prefix))
             .ok_or_else(|| Error::Unexpected(range.clone(), "Unknown namespace prefix"))?;
         (
             Literal::new(range.clone(), namespace.to_string()),
@@ -899,7 +905,6 @@ fn text_range(node: Node) -> Range<usize> {
 }
 
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
@@ -929,7 +934,7 @@ fn lookup_namespace_def<'a, 'input: 'a>(
 }
 
 fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
-    let val = val.trim();
+    let val = trim(val);
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
-- 
2.43.0


From 20e36171f7279c9d6e697ad7e2a5db73955b4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 57/58] fix: documents breaking rules of XML that the tokenizer
 doesn't check were accepted

---
 relaxng-validator/src/lib.rs | 75 +++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 4a91733..af2f629 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -5,7 +5,7 @@ use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 use std::io;
 use std::rc::Rc;
-use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer};
+use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer, XmlCharExt};
 
 #[derive(Debug)]
 pub enum ValidatorError<'a> {
@@ -751,6 +751,11 @@ impl<'a> Validator<'a> {
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
             Some(Ok(evt)) => {
+                if let Some(err) = self.check_token(&evt) {
+                    self.finished = true;
+                    self.tokenizer = Tokenizer::from("");
+                    return Some(Err(ValidatorError::Xml(err)));
+                }
                 if let Token::ElementStart { .. } = evt {
                     self.seen_root = true;
                 }
@@ -776,6 +781,65 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// Checks those rules of XML, and of namespaces in XML, that the tokenizer doesn't
+    fn check_token(&self, token: &Token<'a>) -> Option<xmlparser::Error> {
+        use xmlparser::{Error, StreamError};
+        let pos = |span: &StrSpan<'a>| self.tokenizer.stream().gen_text_pos_from(span.start());
+        match token {
+            Token::Declaration {
+                version,
+                encoding,
+                span,
+                ..
+            } => {
+                let valid = version.as_str() != "1."
+                    && encoding
+                        .is_none_or(|e| e.as_str().starts_with(|c: char| c.is_ascii_alphabetic()));
+                (!valid).then(|| Error::InvalidDeclaration(StreamError::InvalidName, pos(span)))
+            }
+            Token::ProcessingInstruction {
+                target,
+                content,
+                span,
+            } => {
+                // an XML declaration with whitespace other than a space is taken for this
+                let before = &self.tokenizer.stream().slice_back(0).as_str()[..span.start()];
+                let declaration = target.as_str() == "xml"
+                    && matches!(before, "" | "\u{feff}")
+                    && content.is_some_and(|content| content.as_str().starts_with("version"));
+                let valid = !target.as_str().contains(':')
+                    && (declaration || !target.as_str().eq_ignore_ascii_case("xml"))
+                    && content.is_none_or(|content| content.start() > target.end());
+                (!valid).then(|| Error::InvalidPI(StreamError::InvalidName, pos(span)))
+            }
+            Token::ElementStart { span, .. } | Token::ElementEnd { span, .. } => span
+                .as_str()
+                .trim_start_matches(['<', '/'])
+                .starts_with(':')
+                .then(|| Error::InvalidElement(StreamError::InvalidName, pos(span))),
+            Token::Attribute { span, .. } => span
+                .as_str()
+                .starts_with(':')
+                .then(|| Error::InvalidAttribute(StreamError::InvalidName, pos(span))),
+            Token::EntityDeclaration {
+                name,
+                definition,
+                span,
+            } => {
+                let valid = !name.as_str().contains(':')
+                    && match definition {
+                        EntityDefinition::EntityValue(value) => {
+                            // references to parameter entities are not allowed here
+                            !value.as_str().contains('%') && value.as_str().chars().all(is_xml_char)
+                        }
+                        EntityDefinition::ExternalId(_) => true,
+                    };
+                (!valid).then(|| Error::InvalidEntity(StreamError::InvalidName, pos(span)))
+            }
+            _ => None,
+        }
+    }
+
     #[allow(unused)]
     fn assert_health(&self) {
         let mut fail = false;
@@ -1675,6 +1739,10 @@ fn parse_entities(
     }
 }
 
+fn is_name(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_xml_name_start()) && name.chars().all(|c| c.is_xml_name())
+}
+
 /// Is this "<!ENTITY % name ..>", rather than "<!ENTITY name ..>"?
 fn is_parameter_entity(declaration: StrSpan<'_>) -> bool {
     declaration
@@ -1711,6 +1779,11 @@ impl EntityDefinitions {
             match val? {
                 Txt::Text(_pos, text) => normalize_line_ends(text, &mut replacement),
                 Txt::Char(_pos, c) => replacement.push(c),
+                Txt::Entity(pos, name) if !is_name(name) => {
+                    return Err(ValidatorError::InvalidOrUnclosedEntity {
+                        span: pos - 1..pos + name.len(),
+                    });
+                }
                 Txt::Entity(_pos, name) => {
                     replacement.push('&');
                     replacement.push_str(name);
-- 
2.43.0


From f8868b16659aefb21f3eb35dd438e95a2bbcc508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:36 +0000
Subject: [PATCH 58/58] fix: reject bounds of integer and decimal datatypes
 that aren't numbers of these types

---
 relaxng-model/src/datatype/xsd.rs | 39 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index dd29f88..14ef023 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1498,32 +1498,37 @@ impl Compiler {
     }
 
     fn bigint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigInt, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
-            .map_err(|e: num_bigint::ParseBigIntError| {
-                FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-            })
+        // not str::parse(), which accepts underscores
+        parse_integer(&param.3.as_string_value()).ok_or_else(|| {
+            FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "not an integer number".to_string(),
+            )
+        })
     }
 
     fn biguint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigUint, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
-            .map_err(|e: num_bigint::ParseBigIntError| {
-                FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-            })
+        Self::bigint(ctx, param)?.to_biguint().ok_or_else(|| {
+            FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "negative number not allowed".to_string(),
+            )
+        })
     }
 
     fn bigdecimal(
         ctx: &Context,
         param: &types::Param,
     ) -> Result<bigdecimal::BigDecimal, FacetError> {
-        param
-            .3
-            .as_string_value()
+        let value = param.3.as_string_value();
+        if !DECIMAL_RE.is_match(&value) {
+            // str::parse() accepts exponents, and underscores
+            return Err(FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "not a decimal number".to_string(),
+            ));
+        }
+        value
             .parse()
             .map_err(|e: bigdecimal::ParseBigDecimalError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
-- 
2.43.0


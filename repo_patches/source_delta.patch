From 805830d8389aa6a9fdc7b9c52d1a72c78e04364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 01/29] fix: inline image and icon macros require a target
 instead of panicking without one

---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..dadd352 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*?               # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]               # Last char: not whitespace, [, or newline
+                )?                      # A single-character target is allowed
+            )
 
             \[                          # Opening square bracket
 
-- 
2.43.0


From 8f6ca4ca940c6a358540dd5b4e390493203c1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 02/29] fix: link macro with a single-character target no
 longer panics

---
 parser/src/content/macros.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index dadd352..8a1b67b 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -419,10 +419,8 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ()                      # capture group 2: (unused)
+        ([^:\s\[] [^\s\[]*)     # capture group 3: valid target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
-- 
2.43.0


From 8f73a5a2020ef7d71d64bea90198893e75e3b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 03/29] fix: URL followed by > without a preceding < no longer
 panics

---
 parser/src/content/macros.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 8a1b67b..87348d6 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -296,10 +296,17 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = caps
+                .get(4)
+                .or_else(|| caps.get(6))
+                .or_else(|| caps.get(7))
+                .map(|m| m.as_str())
+                .unwrap_or_default()
         );
 
-        let mut suffix = "".to_owned();
+        // A URL that ends at `&gt;` without a preceding `&lt;` (group 6 without
+        // group 2) is a bare URL. Keep the `&gt;` that was consumed by the match.
+        let mut suffix = if caps.get(6).is_some() { "&gt;" } else { "" }.to_owned();
         let mut link_text: Option<String> = None;
 
         // NOTE: If capture group 5 exists (the attrlist), we're looking at a formal macro (e.g., https://example.org[]).
@@ -324,7 +331,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
+            let tail = caps.get(8).map(|m| m.as_str()).unwrap_or_default();
             if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
-- 
2.43.0


From fcbdab6e6b6c84d7a07f9f606e17dd32d8464d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 04/29] fix: SVG image with inline or interactive option no
 longer panics

---
 .../parser/inline_substitution_renderer.rs    | 50 +++----------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..1ce811c 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -508,50 +508,14 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             ));
         }
 
-        let format = params
-            .attrlist
-            .named_attribute("format")
-            .map(|format| format.value());
-
         // TO DO (https://github.com/scouten/asciidoc-parser/issues/277):
-        // Enforce non-safe mode. Add this contraint to following `if` clause:
-        // `&& node.document.safe < SafeMode::SECURE`
-
-        let img = if format == Some("svg") || params.target.contains(".svg") {
-            // NOTE: In the SVG case we may have to ignore the attrs list.
-            if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
-            } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
-            } else {
-                format!(
-                    r#"<img {attrs}{void_element_slash}>"#,
-                    attrs = attrs.join(" "),
-                    void_element_slash = "",
-                )
-            }
-        } else {
-            format!(
-                r#"<img {attrs}{void_element_slash}>"#,
-                attrs = attrs.join(" "),
-                void_element_slash = "",
-                // img = %(<img src="#{src = node.image_uri target}"
-                // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
-                // void_element_slash}>)
-            )
-        };
+        // Safe modes aren't implemented yet, so we behave as in secure mode: An SVG
+        // image with the `inline` or `interactive` option is a plain image.
+        let img = format!(
+            r#"<img {attrs}{void_element_slash}>"#,
+            attrs = attrs.join(" "),
+            void_element_slash = "",
+        );
 
         render_icon_or_image(params.attrlist, &img, &src, "image", dest);
     }
-- 
2.43.0


From 41f09a46947a2c5fa862cdfae35467da978c1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 05/29] fix: retry after quoted text look-ahead no longer loses
 text or panics

---
 parser/src/content/substitution_step.rs | 7 ++++++-
 parser/src/internal/regex.rs            | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..2a08e03 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,12 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let first_char_len = caps[0].chars().next().map_or(1, |c| c.len_utf8());
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                first_char_len
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From e15a734d6e2f38e2b57bd4bf84fc57d85add2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 06/29] fix: passthrough placeholder in the source no longer
 recurses without bound

---
 parser/src/content/passthroughs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..7ca07cf 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -67,7 +67,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, self.0.len());
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -431,13 +431,15 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser, usize);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
-        let Some(pass) = self.0.0.get(index) else {
+        // A passthrough can only contain passthroughs that were extracted before it.
+        // (This ensures that restoring passthroughs always terminates.)
+        let Some(pass) = self.0.0.get(index).filter(|_| index < self.2) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
             ));
@@ -475,7 +477,7 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
 
         if subbed_text.rendered().contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, index);
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From 1a3ec541311e65d6e96a660fac3464413657d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 07/29] fix: em dash replacement requires a word character
 after the dashes

---
 parser/src/content/substitution_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 2a08e03..79f0ba5 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -570,7 +570,7 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Em dash without spaces `--`
             type_: CharacterReplacementType::EmDashWithoutSpace,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"(\w)\\?--\b{start-half}"#).unwrap(),
+            pattern: Regex::new(r#"(\w)\\?--\b{start}"#).unwrap(),
         },
         CharacterReplacement {
             // Ellipsis `...`
-- 
2.43.0


From 9d8bb343ffbc13fb5a80a459cd98117a8773bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 08/29] fix: link: prefix without brackets is left as text

---
 parser/src/content/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 87348d6..2f7da77 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -319,7 +319,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 link_text = Some(attrlist.as_str().to_owned());
             }
         } else {
-            if prefix == "link" || prefix == "\"" || prefix == "'" {
+            if prefix == "link:" || prefix == "\"" || prefix == "'" {
                 // Note from the Ruby implementation which also applies to this if clause:
 
                 // Invalid macro syntax (link: prefix w/o trailing square brackets or URL
-- 
2.43.0


From 9e34fb63bcd7afaed88ce83dc6a26173db8efcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 09/29] fix: consecutive apostrophes inside a word are all
 replaced

---
 parser/src/content/substitution_step.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 79f0ba5..a374b19 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -512,6 +512,7 @@ fn apply_character_replacements(
     for repl in &*REPLACEMENTS {
         let replacer = CharacterReplacer {
             type_: repl.type_.clone(),
+            haystack: &result,
             renderer,
         };
 
@@ -588,7 +589,9 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
             // Apostrophe (inside a word)
             type_: CharacterReplacementType::TypographicApostrophe,
             #[allow(clippy::unwrap_used)]
-            pattern: Regex::new(r#"([[:alnum:]])\\?'([[:alpha:]])"#).unwrap(),
+            pattern: Regex::new(r#"([[:alnum:]])\\?'"#).unwrap(),
+            // NB: There is no look-ahead in Rust Regex, so `CharacterReplacer` checks that a
+            // letter follows. (This letter may precede another apostrophe.)
         },
         CharacterReplacement {
             // Right arrow `->`
@@ -626,11 +629,21 @@ static REPLACEMENTS: LazyLock<Vec<CharacterReplacement>> = LazyLock::new(|| {
 #[derive(Debug)]
 struct CharacterReplacer<'r> {
     type_: CharacterReplacementType,
+    haystack: &'r str,
     renderer: &'r dyn InlineSubstitutionRenderer,
 }
 
 impl Replacer for CharacterReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+        if self.type_ == CharacterReplacementType::TypographicApostrophe
+            && caps.get(1).is_some()
+            && let Some(m) = caps.get(0)
+            && !self.haystack[m.end()..].starts_with(|c: char| c.is_ascii_alphabetic())
+        {
+            dest.push_str(&caps[0]);
+            return;
+        }
+
         if caps[0].contains('\\') {
             // We have to replace since we aren't sure the backslash is the first char.
             let unescaped = &caps[0].replace("\\", "");
@@ -669,10 +682,6 @@ impl Replacer for CharacterReplacer<'_> {
                     CharacterReplacementType::TypographicApostrophe,
                     dest,
                 );
-
-                if let Some(after) = caps.get(2) {
-                    dest.push_str(after.as_str());
-                }
             }
 
             CharacterReplacementType::CharacterReference(_) => {
-- 
2.43.0


From 74eb5b4057940f97e6c77cb15294c6f090b4b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 10/29] fix: metadata or white space without a block no longer
 hangs the parser, entries after a delimited block are recognised

---
 parser/src/blocks/block.rs       | 51 ++++++++++++++++----------------
 parser/src/blocks/metadata.rs    |  2 +-
 parser/src/blocks/parse_utils.rs | 15 +++++++---
 3 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..b0470a5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,32 +284,33 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.anchor_reftext = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..43ceb27 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -173,7 +173,7 @@ impl<'src> BlockMetadata<'src> {
 
     /// Return `true` if both `title` and `attrlist` are empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..869ebd2 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -31,10 +31,17 @@ where
             warnings.append(&mut maw.warnings);
         }
 
-        if let Some(mi) = maw.item {
-            source = mi.after;
-            blocks.push(mi.item);
-        }
+        source = match maw.item {
+            Some(mi) => {
+                blocks.push(mi.item);
+                mi.after.discard_empty_lines()
+            }
+            None => {
+                // There is no block here (for instance, a line that consists only of Unicode
+                // white space). Skip this line so that we always make progress.
+                source.take_line().after.discard_empty_lines()
+            }
+        };
     }
 
     MatchAndWarnings {
-- 
2.43.0


From 3a697f6eab9976ccbe60c0652caa5ba99b234c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 11/29] fix: substitutions are applied to an unterminated
 delimited block

---
 parser/src/blocks/raw_delimited.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..fbe552e 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,15 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From 5bb1e21eb832361565892da2ec222f5049e94fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 12/29] fix: audio block macro is recognised

---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index b0470a5..927b019 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From cb0153c7558701b6a32beb678d2d5179906cb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 13/29] fix: break and media blocks keep their anchor's
 reference text and break IDs are registered

---
 parser/src/blocks/block.rs | 12 +++++++++++-
 parser/src/blocks/break.rs |  4 +++-
 parser/src/blocks/media.rs |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 927b019..57858b5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.title(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From c9083d376798d35d228baf9ff63967cf1b947838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 14/29] fix: section title and explicit ID see only what
 precedes the section's content

---
 parser/src/blocks/section.rs | 71 +++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..5594a82 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,27 +81,19 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
-        let mut most_recent_level = level;
-
-        let mut maw_blocks = parse_blocks_until(
-            level_and_title.after,
-            |i| discrete || peer_or_ancestor_section(*i, level, &mut most_recent_level, warnings),
-            parser,
-        );
-
-        let blocks = maw_blocks.item;
-        let source = metadata.source.trim_remainder(blocks.after);
-
+        // Interpret the title and claim any explicit ID BEFORE parsing child blocks so
+        // that both see (only) what precedes this section.
         let mut section_title = Content::from(level_and_title.item.1);
         SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
 
         let proposed_base_id = generate_section_id(section_title.rendered(), parser);
 
+        // NOTE: This must be the same precedence as in `IsBlock::id()`.
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
@@ -109,27 +101,38 @@ impl<'src> SectionBlock<'src> {
             .and_then(|a| a.named_attribute("reftext").map(|a| a.value()))
             .unwrap_or_else(|| section_title.rendered());
 
-        let section_id = if let Some(catalog) = parser.catalog_mut() {
-            if sectids && manual_id.is_none() {
-                Some(catalog.generate_and_register_unique_id(
-                    &proposed_base_id,
-                    Some(reftext),
-                    RefType::Section,
-                ))
-            } else {
-                if let Some(manual_id) = manual_id
-                    && catalog
-                        .register_ref(manual_id, Some(reftext), RefType::Section)
-                        .is_err()
-                {
-                    warnings.push(Warning {
-                        source: metadata.source.trim_remainder(level_and_title.after),
-                        warning: WarningType::DuplicateId(manual_id.to_string()),
-                    });
-                }
+        if let Some(manual_id) = manual_id
+            && let Some(catalog) = parser.catalog_mut()
+            && catalog
+                .register_ref(manual_id, Some(reftext), RefType::Section)
+                .is_err()
+        {
+            warnings.push(Warning {
+                source: metadata.source.trim_remainder(level_and_title.after),
+                warning: WarningType::DuplicateId(manual_id.to_string()),
+            });
+        }
 
-                None
-            }
+        let mut most_recent_level = level;
+
+        let mut maw_blocks = parse_blocks_until(
+            level_and_title.after,
+            |i| discrete || peer_or_ancestor_section(*i, level, &mut most_recent_level, warnings),
+            parser,
+        );
+
+        let blocks = maw_blocks.item;
+        let source = metadata.source.trim_remainder(blocks.after);
+
+        let section_id = if sectids
+            && manual_id.is_none()
+            && let Some(catalog) = parser.catalog_mut()
+        {
+            Some(catalog.generate_and_register_unique_id(
+                &proposed_base_id,
+                Some(reftext),
+                RefType::Section,
+            ))
         } else {
             None
         };
-- 
2.43.0


From dd1a696162bd644241c4f90d9bb7bc00a5e18f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 15/29] fix: a malformed heading inside a section is reported
 once

---
 parser/src/blocks/section.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 5594a82..511c6ba 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -341,7 +341,11 @@ fn peer_or_ancestor_section<'src>(
 
     let source_after_metadata = block_metadata.block_start;
 
-    if let Some(mi) = parse_title_line(source_after_metadata, warnings) {
+    // A malformed heading is reported when it is parsed as a block of its own, so
+    // ignore any warnings about the title line here.
+    let mut ignored_warnings: Vec<Warning<'src>> = vec![];
+
+    if let Some(mi) = parse_title_line(source_after_metadata, &mut ignored_warnings) {
         let found_level = mi.item.0;
 
         if found_level > *most_recent_level + 1 {
-- 
2.43.0


From 607374d9542cb419e75fe2751c035a48c026da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 16/29] fix: appendix numbering starts over with each parsed
 document

---
 parser/src/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..2ef3b60 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,11 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number = SectionNumber {
+            section_type: SectionType::Appendix,
+            components: vec![],
+        };
+        self.topmost_section_type = SectionType::Normal;
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From 653f5ce9e401ece34b23d1a4daffe0e8801169f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 17/29] fix: an attribute changed by the document keeps its
 modification context

---
 parser/src/parser/parser.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 2ef3b60..606873e 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -391,6 +391,11 @@ impl Parser {
             return;
         }
 
+        // Keep any restriction on who may modify this attribute later.
+        let modification_context = existing_attr.map_or(ModificationContext::Anywhere, |a| {
+            a.modification_context.clone()
+        });
+
         let mut value = attr.value().clone();
 
         if let InterpretedValue::Set = value
@@ -401,7 +406,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value,
         };
 
@@ -419,9 +424,24 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
+        // Verify that we have permission to overwrite any existing attribute value.
+        if let Some(existing_attr) = existing_attr
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
+
+        // Keep any restriction on who may modify this attribute later.
+        let modification_context = existing_attr.map_or(ModificationContext::Anywhere, |a| {
+            a.modification_context.clone()
+        });
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
@@ -439,8 +459,10 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(attr.name().data());
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
         // Verify that we have permission to overwrite any existing attribute value.
-        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+        if let Some(existing_attr) = existing_attr
             && (existing_attr.modification_context != ModificationContext::Anywhere
                 && existing_attr.modification_context != ModificationContext::ApiOrDocumentBody)
         {
@@ -451,9 +473,14 @@ impl Parser {
             return;
         }
 
+        // Keep any restriction on who may modify this attribute later.
+        let modification_context = existing_attr.map_or(ModificationContext::Anywhere, |a| {
+            a.modification_context.clone()
+        });
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: attr.value().clone(),
         };
 
-- 
2.43.0


From 0ffb6671c17e989fe12fdf4a82e986a32da9d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 18/29] fix: preprocessor keeps all lines of an attribute entry
 that ends with a continuation

---
 parser/src/parser/preprocessor.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..67fa6d6 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -102,17 +102,19 @@ impl<'p> PreprocessorState<'p> {
                     .set_attribute_from_body(&attr.item, &mut warnings);
 
                 self.output.push_str(attr.item.span().data());
-                self.output.push('\n');
 
-                self.output_line_number += attr
-                    .item
-                    .span()
-                    .data()
-                    .as_bytes()
-                    .iter()
-                    .filter(|&&b| b == b'\n')
-                    .count()
-                    + 1;
+                // The entry might end with a continued line that has nothing (left) on it, so
+                // make sure that we write exactly as many lines as we've read.
+                let lines_written = attr.item.span().data().matches('\n').count();
+                let consumed = original_source.trim_remainder(attr.after);
+                let consumed = consumed.data().strip_suffix('\n').unwrap_or(consumed.data());
+                let lines_read = consumed.matches('\n').count() + 1;
+
+                for _ in lines_written..lines_read {
+                    self.output.push('\n');
+                }
+
+                self.output_line_number += lines_read;
 
                 source_span = attr.after;
             } else if line.starts_with("include::")
-- 
2.43.0


From 0cc8a19902bae430a2399389e70ebe0e414d39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 19/29] fix: an unresolved include directive is mapped to its
 own source line

---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 67fa6d6..c40cb78 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -144,6 +144,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From e49682cc3a84eb9e4838bdbb5221adaff0d402a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 20/29] fix: include directives that include themselves no
 longer recurse without bound

---
 parser/src/parser/preprocessor.rs | 37 ++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c40cb78..bf16453 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,12 +42,19 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Maximum nesting depth of include directives.
+const MAX_INCLUDE_DEPTH: usize = 64;
+
+/// Describes an include directive that is currently being processed: the name
+/// of the file it was found in, its target, and its attribute list.
+type IncludeDirective = (Option<String>, String, String);
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
     in_document_header: bool,
     can_have_attribute: bool,
-    include_depth: usize,
+    open_includes: Vec<IncludeDirective>,
     output_line_number: usize,
     output: String,
     source_map: SourceMap,
@@ -59,7 +66,7 @@ impl<'p> PreprocessorState<'p> {
             parser,
             in_document_header: true,
             can_have_attribute: true,
-            include_depth: 0,
+            open_includes: vec![],
             output_line_number: 1,
             output: String::new(),
             source_map: SourceMap::default(),
@@ -67,8 +74,6 @@ impl<'p> PreprocessorState<'p> {
     }
 
     fn process_adoc_include(&mut self, source: &str, file_name: Option<&str>) {
-        self.include_depth += 1;
-
         let mut has_reported_file = file_name.is_none();
         let mut source_span = Span::new(source);
 
@@ -132,15 +137,33 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
+                // An include directive that is reached again while its own content is being
+                // processed (or that is nested too deeply) would never end.
+                let directive = (
+                    to_owned(file_name),
+                    target.clone(),
+                    caps.get(2).map_or("", |m| m.as_str()).to_string(),
+                );
+
+                let include_text = if self.open_includes.len() >= MAX_INCLUDE_DEPTH
+                    || self.open_includes.contains(&directive)
+                {
+                    None
+                } else {
                     self.parser.include_file_handler.as_ref().and_then(|ifh| {
                         ifh.resolve_target(file_name, &target, &attrlist, self.parser)
                     })
-                {
+                };
+
+                if let Some(include_text) = include_text {
+                    self.open_includes.push(directive);
+
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
                     self.process_adoc_include(&include_text, Some(&target));
 
+                    self.open_includes.pop();
+
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
@@ -181,8 +204,6 @@ impl<'p> PreprocessorState<'p> {
                 self.output.push('\n');
             }
         }
-
-        self.include_depth -= 1;
     }
 
     /// Apply attribute substitution to a string, replacing {attribute-name}
-- 
2.43.0


From 356b766375c5d23bb138a09caefdbbd99dba4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 21/29] fix: include targets see header-only attributes set in
 the header

---
 parser/src/parser/preprocessor.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index bf16453..ab32609 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -103,8 +103,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 self.output.push_str(attr.item.span().data());
 
@@ -112,7 +117,10 @@ impl<'p> PreprocessorState<'p> {
                 // make sure that we write exactly as many lines as we've read.
                 let lines_written = attr.item.span().data().matches('\n').count();
                 let consumed = original_source.trim_remainder(attr.after);
-                let consumed = consumed.data().strip_suffix('\n').unwrap_or(consumed.data());
+                let consumed = consumed
+                    .data()
+                    .strip_suffix('\n')
+                    .unwrap_or(consumed.data());
                 let lines_read = consumed.matches('\n').count() + 1;
 
                 for _ in lines_written..lines_read {
-- 
2.43.0


From d1aa0f254b93e3876fc977f441b08c6a2df218dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 22/29] fix: a line of only tabs is a blank line

---
 parser/src/document/header.rs |  2 +-
 parser/src/span/line.rs       | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/src/document/header.rs b/parser/src/document/header.rs
index 74157cd..2c2005c 100644
--- a/parser/src/document/header.rs
+++ b/parser/src/document/header.rs
@@ -44,7 +44,7 @@ impl<'src> Header<'src> {
             let line = line_mi.item;
 
             // A blank line after the title ends the header.
-            if line.is_empty() {
+            if line.is_blank() {
                 if title.is_some() {
                     break;
                 }
diff --git a/parser/src/span/line.rs b/parser/src/span/line.rs
index 506a9a1..f197a92 100644
--- a/parser/src/span/line.rs
+++ b/parser/src/span/line.rs
@@ -45,7 +45,7 @@ impl<'src> Span<'src> {
                     .trim_item_end_matches('\r')
                     .trim_item_trailing_spaces()
             })
-            .filter(|line| !line.item.is_empty())
+            .filter(|line| !line.item.is_blank())
     }
 
     /// Split the span, assuming the span begins with an empty line.
@@ -57,11 +57,12 @@ impl<'src> Span<'src> {
     pub(crate) fn take_empty_line(self) -> Option<MatchedItem<'src, Self>> {
         let l = self.take_line();
 
-        if l.item.data().bytes().all(|b| b == b' ' || b == b'\t') {
-            Some(l)
-        } else {
-            None
-        }
+        if l.item.is_blank() { Some(l) } else { None }
+    }
+
+    /// Return `true` if this span contains nothing but spaces and tabs.
+    pub(crate) fn is_blank(self) -> bool {
+        self.data().bytes().all(|b| b == b' ' || b == b'\t')
     }
 
     /// Discard zero or more empty lines.
-- 
2.43.0


From d08464e41bfa454d423218e4bae28e5789699403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 23/29] fix: an indented paragraph inside a section no longer
 panics

---
 parser/src/blocks/section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 511c6ba..e2123ca 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -295,6 +295,10 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From e6c36f5316395d98c66051dbe8404a265621c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 24/29] fix: a literal paragraph or a heading discrete by
 attribute reference does not end its section

---
 parser/src/blocks/block.rs              |  5 +----
 parser/src/blocks/compound_delimited.rs |  2 +-
 parser/src/blocks/metadata.rs           |  5 +++++
 parser/src/blocks/parse_utils.rs        |  4 ++--
 parser/src/blocks/section.rs            | 24 +++++++++++++++++-------
 parser/src/document/document.rs         |  2 +-
 6 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 57858b5..e7be79b 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -156,10 +156,7 @@ impl<'src> Block<'src> {
             mut warnings,
         } = BlockMetadata::parse(source, parser);
 
-        let is_literal =
-            metadata.attrlist.as_ref().and_then(|a| a.block_style()) == Some("literal");
-
-        if !is_literal {
+        if !metadata.is_literal() {
             if let Some(mut rdb_maw) = RawDelimitedBlock::parse(&metadata, parser)
                 && let Some(rdb) = rdb_maw.item
             {
diff --git a/parser/src/blocks/compound_delimited.rs b/parser/src/blocks/compound_delimited.rs
index ccd2da0..373114c 100644
--- a/parser/src/blocks/compound_delimited.rs
+++ b/parser/src/blocks/compound_delimited.rs
@@ -101,7 +101,7 @@ impl<'src> CompoundDelimitedBlock<'src> {
 
         let inside_delimiters = delimiter.after.trim_remainder(closing_delimiter);
 
-        let maw_blocks = parse_blocks_until(inside_delimiters, |_| false, parser);
+        let maw_blocks = parse_blocks_until(inside_delimiters, |_, _| false, parser);
 
         let blocks = maw_blocks.item;
         let source = metadata
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index 43ceb27..149f14b 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -190,6 +190,11 @@ impl<'src> BlockMetadata<'src> {
             false
         }
     }
+
+    /// Return `true` if the block style (if present) is `literal`.
+    pub(crate) fn is_literal(&self) -> bool {
+        self.attrlist.as_ref().and_then(|a| a.block_style()) == Some("literal")
+    }
 }
 
 fn parse_maybe_block_anchor(
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 869ebd2..6792563 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -13,7 +13,7 @@ pub(crate) fn parse_blocks_until<'src, F>(
     parser: &mut Parser,
 ) -> MatchAndWarnings<'src, MatchedItem<'src, Vec<Block<'src>>>>
 where
-    F: FnMut(&Span<'src>) -> bool,
+    F: FnMut(&Span<'src>, &mut Parser) -> bool,
 {
     let mut blocks: Vec<Block<'src>> = vec![];
     let mut warnings: Vec<Warning<'src>> = vec![];
@@ -21,7 +21,7 @@ where
     source = source.discard_empty_lines();
 
     while !source.data().is_empty() {
-        if f(&source) {
+        if f(&source, parser) {
             break;
         }
 
diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index e2123ca..6ada997 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -117,7 +117,16 @@ impl<'src> SectionBlock<'src> {
 
         let mut maw_blocks = parse_blocks_until(
             level_and_title.after,
-            |i| discrete || peer_or_ancestor_section(*i, level, &mut most_recent_level, warnings),
+            |i, parser| {
+                discrete
+                    || peer_or_ancestor_section(
+                        *i,
+                        level,
+                        &mut most_recent_level,
+                        parser,
+                        warnings,
+                    )
+            },
             parser,
         );
 
@@ -329,17 +338,18 @@ fn peer_or_ancestor_section<'src>(
     source: Span<'src>,
     level: usize,
     most_recent_level: &mut usize,
+    parser: &mut Parser,
     warnings: &mut Vec<Warning<'src>>,
 ) -> bool {
     // Skip over any block metadata (title, anchor, attrlist) to find the actual
-    // section line. We create a temporary parser to avoid modifying the real
-    // parser state.
-    let mut temp_parser = Parser::default();
-
-    let block_metadata_maw = BlockMetadata::parse(source, &mut temp_parser);
+    // section line.
+    let block_metadata_maw = BlockMetadata::parse(source, parser);
 
     let block_metadata = block_metadata_maw.item;
-    if block_metadata.is_discrete() {
+
+    // The style is interpreted exactly as it will be when this block is parsed:
+    // Neither a discrete heading nor a literal paragraph ends a section.
+    if block_metadata.is_discrete() || block_metadata.is_literal() {
         return false;
     }
 
diff --git a/parser/src/document/document.rs b/parser/src/document/document.rs
index 0469b39..49e6c22 100644
--- a/parser/src/document/document.rs
+++ b/parser/src/document/document.rs
@@ -74,7 +74,7 @@ impl<'src> Document<'src> {
             let header = mi.item.item;
             let mut warnings = mi.warnings;
 
-            let mut maw_blocks = parse_blocks_until(after_header, |_| false, parser);
+            let mut maw_blocks = parse_blocks_until(after_header, |_, _| false, parser);
 
             if !maw_blocks.warnings.is_empty() {
                 warnings.append(&mut maw_blocks.warnings);
-- 
2.43.0


From 68b9430d2a85e08ece30b7b9db6a6d304a5e0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 25/29] fix: keep a raw block's span inside its parent's span

An unterminated raw block ran over trailing blank lines, and a closing
delimiter kept its trailing blanks, so that the block's span ended after
the span of the section, compound block or document that contains it.
---
 parser/src/blocks/raw_delimited.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index fbe552e..1387517 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -113,7 +113,7 @@ impl<'src> RawDelimitedBlock<'src> {
                             source: metadata
                                 .source
                                 .trim_remainder(line.after)
-                                .trim_trailing_line_end(),
+                                .trim_trailing_whitespace(),
                             title_source: metadata.title_source,
                             title: metadata.title.clone(),
                             anchor: metadata.anchor,
@@ -130,7 +130,7 @@ impl<'src> RawDelimitedBlock<'src> {
             next = line.after;
         }
 
-        let content = content_start.trim_remainder(next).trim_trailing_line_end();
+        let content = content_start.trim_remainder(next).trim_trailing_whitespace();
 
         let mut content: Content<'src> = content.into();
 
@@ -146,7 +146,7 @@ impl<'src> RawDelimitedBlock<'src> {
                     source: metadata
                         .source
                         .trim_remainder(next)
-                        .trim_trailing_line_end(),
+                        .trim_trailing_whitespace(),
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-- 
2.43.0


From ffd415eb07b3ea335d31f31dc83e211c497c371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 26/29] fix: letter appendices after Z as AA, AB, ...

The 27th appendix was numbered "[", the 28th "\".
---
 parser/src/blocks/section.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 6ada997..0345de0 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -511,9 +511,7 @@ impl fmt::Display for SectionNumber {
                 .enumerate()
                 .map(|(index, x)| {
                     if index == 0 && self.section_type == SectionType::Appendix {
-                        char::from_u32(b'A' as u32 + (x - 1) as u32)
-                            .unwrap_or('?')
-                            .to_string()
+                        appendix_letters(*x)
                     } else {
                         x.to_string()
                     }
@@ -524,6 +522,20 @@ impl fmt::Display for SectionNumber {
     }
 }
 
+/// Appendices are lettered `A` to `Z`, then `AA`, `AB`, and so on.
+fn appendix_letters(number: usize) -> String {
+    let mut letters: Vec<char> = vec![];
+    let mut rest = number;
+
+    while rest > 0 {
+        rest -= 1;
+        letters.push((b'A' + (rest % 26) as u8) as char);
+        rest /= 26;
+    }
+
+    letters.iter().rev().collect()
+}
+
 impl fmt::Debug for SectionNumber {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_struct("SectionNumber")
-- 
2.43.0


From 7f46e9b758bafccf30a2decbb661baab49b308de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 27/29] fix: include directive with a single-character
 attribute list is recognised

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index ab32609..296f087 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -276,7 +276,7 @@ static INCLUDE_DIRECTIVE: LazyLock<Regex> = LazyLock::new(|| {
 
         \[                          # Literal '[' starting the attributes block
 
-        ([^\]].+)?                  # (2) Optional contents inside brackets (lazy by default)
+        ([^\]].*)?                  # (2) Optional contents inside brackets (lazy by default)
 
         \]                          # Literal closing bracket
 
-- 
2.43.0


From fe1ea84843b8bb4215088fa7f7a19b906a2e96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 28/29] fix: a line of only white space is blank for the
 preprocessor, too

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 296f087..feb4af2 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -200,7 +200,7 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
-                if line.is_empty() {
+                if line.trim_matches([' ', '\t']).is_empty() {
                     self.in_document_header = false;
                     self.can_have_attribute = true;
                 } else if !self.in_document_header {
-- 
2.43.0


From c617f0cea4b045070cd9dec572a20c6958522a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 29/29] fix: give every ASG document its own copy of a default
 value

---
 asg/lib/ajv-keyword-defaults.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asg/lib/ajv-keyword-defaults.js b/asg/lib/ajv-keyword-defaults.js
index 6b51e64..78c5dd2 100644
--- a/asg/lib/ajv-keyword-defaults.js
+++ b/asg/lib/ajv-keyword-defaults.js
@@ -6,7 +6,7 @@ export default function getDef () {
     modifying: true,
     valid: true,
     compile: (defaults) => (data) => {
-      for (const [name, val] of Object.entries(defaults)) data[name] ??= val
+      for (const [name, val] of Object.entries(defaults)) data[name] ??= structuredClone(val)
     },
   }
 }
-- 
2.43.0


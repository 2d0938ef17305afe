From 1012ace121c83246c47fe80ef789a37dd9acf9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 01/77] fix: leave out pictures whose bytes are unavailable so
 slide ids and relationships agree

---
 src/generator/builder.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..5ab1351 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1,5 +1,6 @@
 //! PPTX builder - orchestrates ZIP creation and file writing
 
+use std::borrow::Cow;
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
 use zip::ZipWriter;
@@ -83,6 +84,24 @@ fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Ve
     images
 }
 
+/// Slides as they are packaged: pictures whose bytes cannot be obtained are left
+/// out (nothing could be embedded for them), so that the slide markup and the
+/// relationships agree on which pictures exist.
+fn prepare_slide(slide: &SlideContent) -> Cow<'_, SlideContent> {
+    let available: Vec<bool> = slide
+        .images
+        .iter()
+        .map(|image| image.get_bytes().is_some())
+        .collect();
+    if available.iter().all(|a| *a) {
+        return Cow::Borrowed(slide);
+    }
+    let mut prepared = slide.clone();
+    let mut available = available.into_iter();
+    prepared.images.retain(|_| available.next().unwrap_or(false));
+    Cow::Owned(prepared)
+}
+
 /// Collect hyperlink relationship XML (`<Relationship .../>`) for every shape on
 /// the slide whose hyperlink has an assigned relationship id. The slide XML
 /// references these ids via `<a:hlinkClick r:id="..."/>`, so the matching
@@ -1041,9 +1060,11 @@ fn write_slide_packages_lazy<W: Write + Seek>(
         let Some(slide) = slides.generate_slide(i) else {
             continue;
         };
+        let slide = prepare_slide(&slide);
+        let slide = slide.as_ref();
         let slide_num = i + 1;
-        let layout_number = resolve_layout_number(&slide, template);
-        let images = slide_image_rel_targets(&slide, &media_registry);
+        let layout_number = resolve_layout_number(slide, template);
+        let images = slide_image_rel_targets(slide, &media_registry);
         let image_count = images.len();
 
         let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
@@ -1064,7 +1085,7 @@ fn write_slide_packages_lazy<W: Write + Seek>(
 
         let slide_xml = create_slide_xml_with_content(
             slide_num,
-            &slide,
+            slide,
             &chart_rids,
             ink_rel_id.as_deref(),
         );
@@ -1105,7 +1126,7 @@ fn write_slide_packages_lazy<W: Write + Seek>(
             notes_part.unwrap_or(1),
             &chart_rels,
             &images,
-            &slide_hyperlink_relationships(&slide),
+            &slide_hyperlink_relationships(slide),
             ink_rel_tuple,
         );
         set_slide_rels_path(&mut rels_path, slide_num);
@@ -1159,6 +1180,8 @@ fn write_slides<W: Write + Seek>(
             let mut ink_part_num = 0usize;
             for (i, slide) in slides.iter().enumerate() {
                 let slide_num = i + 1;
+                let slide = prepare_slide(slide);
+                let slide = slide.as_ref();
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
                 let start_rid = slide_content_rel_start(slide.notes.is_some(), slide.images.len());
-- 
2.43.0


From 760fcdc076be9e98bec77ff3b3262823aa645042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 02/77] fix: declare a content type for every embedded picture
 format

---
 src/generator/images.rs      | 26 +++++++++++++++++++---
 src/generator/package_xml.rs | 43 ++++++++++++++++++++++--------------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..682548f 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -265,11 +265,31 @@ impl Image {
 
     /// Get file extension from filename
     pub fn extension(&self) -> String {
-        Path::new(&self.filename)
+        const KNOWN: [&str; 10] = [
+            "png", "jpg", "jpeg", "gif", "bmp", "tif", "tiff", "svg", "webp", "emf",
+        ];
+        let from_name = Path::new(&self.filename)
             .extension()
             .and_then(|ext| ext.to_str())
-            .map(|s| s.to_lowercase())
-            .unwrap_or_else(|| self.format.to_lowercase())
+            .map(|s| s.to_lowercase());
+        match from_name {
+            // The extension becomes part of a package part name and selects its
+            // content type, so only picture extensions are taken from the name.
+            Some(ext) if KNOWN.contains(&ext.as_str()) => ext,
+            _ => {
+                let format: String = self
+                    .format
+                    .chars()
+                    .filter(|c| c.is_ascii_alphanumeric())
+                    .collect::<String>()
+                    .to_lowercase();
+                if format.is_empty() || matches!(format.as_str(), "xml" | "rels" | "xlsx") {
+                    "bin".to_string()
+                } else {
+                    format
+                }
+            }
+        }
     }
 
     /// Get MIME type for the image format
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..32a6b7c 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -25,26 +25,35 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Default Extension="xml" ContentType="application/xml"/>
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
+/// Content type of an embedded picture by file extension.
+fn image_content_type(ext: &str) -> &'static str {
+    match ext {
+        "jpg" | "jpeg" => "image/jpeg",
+        "png" => "image/png",
+        "gif" => "image/gif",
+        "bmp" => "image/bmp",
+        "tif" | "tiff" => "image/tiff",
+        "svg" => "image/svg+xml",
+        "webp" => "image/webp",
+        "emf" => "image/x-emf",
+        "wmf" => "image/x-wmf",
+        _ => "application/octet-stream",
+    }
+}
+
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
+    let mut seen: Vec<&str> = Vec::new();
     for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+        let ext = ext.as_str();
+        if seen.contains(&ext) || matches!(ext, "rels" | "xml" | "xlsx") {
+            continue;
         }
-    }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
+        seen.push(ext);
+        xml.push_str(&format!(
+            r#"<Default Extension="{}" ContentType="{}"/>"#,
+            escape_xml(ext),
+            image_content_type(ext)
+        ));
     }
 }
 
-- 
2.43.0


From 48ac9bbf3cb5d7f2b070dbe54efa2af2c3589f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 03/77] fix: package template parts once, with their own
 content types, in a fixed order; lazy decks declare signatures, fonts and ink

---
 src/core/mod.rs                    |   2 +-
 src/core/package_validation/mod.rs |   2 +-
 src/generator/builder.rs           | 102 +++++++++++------------------
 src/generator/package_xml.rs       |  64 ++++++++++++++----
 src/generator/template.rs          |  84 ++++++++++++++++++++----
 5 files changed, 161 insertions(+), 93 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..06a5a69 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -4,7 +4,7 @@
 //! XML generation and consistent behavior across all PPTX elements.
 
 mod dimension;
-mod package_validation;
+pub(crate) mod package_validation;
 mod placement;
 mod powerpoint_compat;
 mod traits;
diff --git a/src/core/package_validation/mod.rs b/src/core/package_validation/mod.rs
index e30b09a..9e1d2cd 100644
--- a/src/core/package_validation/mod.rs
+++ b/src/core/package_validation/mod.rs
@@ -4,7 +4,7 @@
 //! structural issues before opening in PowerPoint.
 
 mod context;
-mod rels;
+pub(crate) mod rels;
 mod report;
 mod rules;
 
diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 5ab1351..6913f9c 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -14,7 +14,7 @@ use super::package_xml::{
     create_presentation_rels_xml_full, create_presentation_rels_xml_full_with_fonts,
     create_presentation_xml, create_presentation_xml_with_fonts,
     create_content_types_xml_with_notes_and_charts,
-    content_types_opening, append_digital_signature_content_type,
+    create_content_types_xml_full, append_digital_signature_content_type,
     append_embedded_font_content_type, table_styles_rel_id,
     create_pres_props_xml, create_view_props_xml, create_table_styles_xml,
     create_handout_master_rels_xml,
@@ -38,6 +38,8 @@ use crate::generator::slide_content::print_settings::PrintWhat;
 use crate::generator::slide_content::presentation_settings::PresentationSettings;
 use super::media_registry::MediaRegistry;
 
+const TABLE_STYLES_PART: &str = "ppt/tableStyles.xml";
+
 fn zip_options() -> FileOptions {
     FileOptions::default()
 }
@@ -528,6 +530,7 @@ fn write_content_types<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let media_exts = custom_slides
         .map(build_media_registry)
@@ -552,6 +555,9 @@ fn write_content_types<W: Write + Seek>(
         .map(|slides| slides.iter().filter(|s| s.ink_annotations.is_some()).count())
         .unwrap_or(0);
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
+    if let Some(template) = template {
+        super::package_xml::apply_template_content_types(&mut content_types, template);
+    }
 
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
@@ -583,6 +589,7 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let pres_props = create_pres_props_xml(settings);
     zip.start_file("ppt/presProps.xml", *options)?;
@@ -592,9 +599,12 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip.start_file("ppt/viewProps.xml", *options)?;
     zip.write_all(view_props.as_bytes())?;
 
-    let table_styles = create_table_styles_xml();
-    zip.start_file("ppt/tableStyles.xml", *options)?;
-    zip.write_all(table_styles.as_bytes())?;
+    let table_styles = template
+        .and_then(|t| t.parts().get(TABLE_STYLES_PART))
+        .map(Vec::as_slice)
+        .unwrap_or_else(|| create_table_styles_xml().as_bytes());
+    zip.start_file(TABLE_STYLES_PART, *options)?;
+    zip.write_all(table_styles)?;
     Ok(())
 }
 
@@ -651,13 +661,18 @@ fn write_theme_and_layouts<W: Write + Seek>(
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
-        for (path, data) in tmpl.parts() {
+        const THEME: &str = "ppt/theme/theme1.xml";
+        let theme = settings.and_then(|s| s.theme.as_ref());
+        for (path, data) in tmpl.sorted_parts() {
+            if path == TABLE_STYLES_PART || (path == THEME && theme.is_some()) {
+                continue;
+            }
             zip.start_file(path, *options)?;
             zip.write_all(data)?;
         }
-        if let Some(theme) = settings.and_then(|s| s.theme.as_ref()) {
-            let theme_xml = create_theme_xml(Some(theme));
-            zip.start_file("ppt/theme/theme1.xml", *options)?;
+        if theme.is_some() || !tmpl.parts().contains_key(THEME) {
+            let theme_xml = create_theme_xml(theme);
+            zip.start_file(THEME, *options)?;
             zip.write_all(theme_xml.as_bytes())?;
         }
         return Ok(());
@@ -748,7 +763,7 @@ fn write_package_files<W: Write + Seek>(
     let chart_info = collect_chart_info(custom_slides);
 
     // 1. Content types
-    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -768,7 +783,7 @@ fn write_package_files<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts (presProps, viewProps, tableStyles)
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master (when printing handouts)
     if has_handout {
@@ -848,7 +863,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     let chart_info = collect_chart_info_lazy(slides);
 
     // 1. Content types (lazy version)
-    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -868,7 +883,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master
     if has_handout {
@@ -930,6 +945,7 @@ fn write_content_types_lazy<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let notes_count = (0..slide_count)
         .filter(|i| {
@@ -952,58 +968,13 @@ fn write_content_types_lazy<W: Write + Seek>(
     let media_registry = build_media_registry_lazy(slides);
     let media_exts = media_registry.extensions();
 
-    let mut content_types = content_types_opening(&media_exts, chart_info.total_charts);
-
-    for i in 1..=slide_count {
-        content_types.push_str(&format!(
-            "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        ));
-    }
-
-    if notes_count > 0 {
-        let mut notes_index = 0usize;
-        for i in 0..slide_count {
-            if slides
-                .slide_features(i)
-                .map(|(notes, _)| notes)
-                .unwrap_or(false)
-            {
-                notes_index += 1;
-                content_types.push_str(&format!(
-                    "\n<Override PartName=\"/ppt/notesSlides/notesSlide{notes_index}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>"
-                ));
-            }
-        }
-        content_types.push_str("\n<Override PartName=\"/ppt/notesMasters/notesMaster1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml\"/>");
-        content_types.push_str("\n<Override PartName=\"/ppt/theme/theme2.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
-    }
-
-    if has_handout {
-        content_types.push_str("\n<Override PartName=\"/ppt/handoutMasters/handoutMaster1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml\"/>");
-        content_types.push_str("\n<Override PartName=\"/ppt/theme/theme3.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
-    }
-
-    for i in 1..=chart_info.total_charts {
-        content_types.push_str(&format!(
-            "\n<Override PartName=\"/ppt/charts/chart{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.drawingml.chart+xml\"/>"
-        ));
-        content_types.push_str(&format!(
-            "\n<Override PartName=\"/ppt/embeddings/{}\" ContentType=\"application/vnd.openxmlformats-officedocument.spreadsheetml.sheet\"/>",
-            chart_embedding_filename(i)
-        ));
-    }
-
-    content_types.push_str(
-        r#"
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/ppt/tableStyles.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"/>
-<Override PartName="/ppt/viewProps.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml"/>
-<Override PartName="/ppt/presProps.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presProps+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>"#,
+    let mut content_types = create_content_types_xml_full(
+        slide_count,
+        notes_count,
+        chart_info.total_charts,
+        has_handout,
+        &media_exts,
     );
-    super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
 
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
@@ -1013,8 +984,9 @@ fn write_content_types_lazy<W: Write + Seek>(
     }
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
-
-    content_types.push_str("\n</Types>");
+    if let Some(template) = template {
+        super::package_xml::apply_template_content_types(&mut content_types, template);
+    }
 
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 32a6b7c..9adf108 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -7,6 +7,7 @@ use crate::generator::charts::chart_embedding_filename;
 use crate::generator::layout_parts::append_layout_content_type_overrides;
 use crate::generator::layout_parts::STANDARD_LAYOUT_COUNT;
 use crate::generator::theme_xml::layout_rel_target;
+use crate::generator::template::PptxTemplate;
 
 /// First slide master id (`0x80000000`). Layout and notes master ids follow in the same id space.
 pub const SLIDE_MASTER_ID: u32 = 2_147_483_648;
@@ -404,24 +405,30 @@ pub fn create_content_types_xml_with_notes_and_charts(
     let notes_count = custom_slides
         .map(|slides_slice| slides_slice.iter().filter(|slide| slide.notes.is_some()).count())
         .unwrap_or(0);
+    create_content_types_xml_full(slides, notes_count, chart_count, has_handout, media_exts)
+}
+
+/// Create `[Content_Types].xml` from the part counts of the package.
+pub fn create_content_types_xml_full(
+    slides: usize,
+    notes_count: usize,
+    chart_count: usize,
+    has_handout: bool,
+    media_exts: &[String],
+) -> String {
     let mut xml = String::with_capacity(2048 + slides * 140 + notes_count * 140 + chart_count * 120);
     xml.push_str(&content_types_opening(media_exts, chart_count));
+
     append_slide_overrides(&mut xml, slides);
 
-    if let Some(slides_slice) = custom_slides {
-        let mut notes_index = 0usize;
-        for slide in slides_slice {
-            if slide.notes.is_some() {
-                notes_index += 1;
-                xml.push_str("\n<Override PartName=\"/ppt/notesSlides/notesSlide");
-                append_usize(&mut xml, notes_index);
-                xml.push_str(".xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>");
-            }
-        }
-        if notes_count > 0 {
-            xml.push_str("\n<Override PartName=\"/ppt/notesMasters/notesMaster1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml\"/>");
-            xml.push_str("\n<Override PartName=\"/ppt/theme/theme2.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
-        }
+    for i in 1..=notes_count {
+        xml.push_str("\n<Override PartName=\"/ppt/notesSlides/notesSlide");
+        append_usize(&mut xml, i);
+        xml.push_str(".xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>");
+    }
+    if notes_count > 0 {
+        xml.push_str("\n<Override PartName=\"/ppt/notesMasters/notesMaster1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml\"/>");
+        xml.push_str("\n<Override PartName=\"/ppt/theme/theme2.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
     }
 
     if has_handout {
@@ -443,6 +450,35 @@ pub fn create_content_types_xml_with_notes_and_charts(
     xml
 }
 
+/// Adjust the content types of the standard layouts to the parts a template brings.
+pub fn apply_template_content_types(xml: &mut String, template: &PptxTemplate) {
+    for n in 1..=STANDARD_LAYOUT_COUNT {
+        if !template.has_layout(n) {
+            let mut standard = String::new();
+            append_layout_content_type_overrides(&mut standard, n);
+            let line = standard.rsplit('\n').next().unwrap_or_default();
+            *xml = xml.replacen(&format!("\n{line}"), "", 1);
+        }
+    }
+    for (path, _) in template.sorted_parts() {
+        if path.ends_with(".rels") || xml.contains(&format!("PartName=\"/{path}\"")) {
+            continue;
+        }
+        if let Some(content_type) = template.content_type(path)
+            && let Some(pos) = xml.rfind("</Types>")
+        {
+            xml.insert_str(
+                pos,
+                &format!(
+                    "\n<Override PartName=\"/{}\" ContentType=\"{}\"/>",
+                    escape_xml(path),
+                    escape_xml(content_type)
+                ),
+            );
+        }
+    }
+}
+
 /// Append the digital signature content type entries to an existing
 /// `[Content_Types].xml` string (inserted before `</Types>`).
 pub fn append_digital_signature_content_type(xml: &mut String) {
diff --git a/src/generator/template.rs b/src/generator/template.rs
index 47b5644..060b005 100644
--- a/src/generator/template.rs
+++ b/src/generator/template.rs
@@ -3,13 +3,16 @@
 use std::collections::HashMap;
 use std::path::Path;
 
+use crate::core::package_validation::rels::resolve_rel_target;
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
+use crate::oxml::XmlParser;
 
 /// Theme + master + layout parts cloned from an existing `.pptx` file.
 #[derive(Clone, Debug, Default)]
 pub struct PptxTemplate {
     parts: HashMap<String, Vec<u8>>,
+    content_types: HashMap<String, String>,
     layout_count: usize,
 }
 
@@ -22,21 +25,62 @@ impl PptxTemplate {
 
     /// Extract template parts from an opened package.
     pub fn from_package(pkg: &Package) -> Result<Self> {
+        const MASTER: &str = "ppt/slideMasters/slideMaster1.xml";
+        const THEME: &str = "ppt/theme/theme1.xml";
+        const TABLE_STYLES: &str = "ppt/tableStyles.xml";
+
+        if !pkg.has_part(MASTER) {
+            return Err(PptxError::InvalidValue(
+                "template missing ppt/slideMasters/slideMaster1.xml".into(),
+            ));
+        }
+
+        // The generated deck has one slide master: take it with everything it
+        // leads to (layouts, theme, pictures), and the presentation-wide theme and
+        // table styles. Themes of notes or handout masters are not part of it.
         let mut parts = HashMap::new();
-        for path in pkg.part_paths() {
-            if (path.starts_with("ppt/theme/")
-                || path.starts_with("ppt/slideMasters/")
-                || path.starts_with("ppt/slideLayouts/")
-                || path == "ppt/tableStyles.xml")
-                && let Some(data) = pkg.get_part(path) {
-                    parts.insert(path.to_string(), data.to_vec());
+        let mut pending = vec![MASTER.to_string(), THEME.to_string(), TABLE_STYLES.to_string()];
+        while let Some(path) = pending.pop() {
+            if parts.contains_key(&path) {
+                continue;
+            }
+            let Some(data) = pkg.get_part(&path) else { continue };
+            parts.insert(path.clone(), data.to_vec());
+
+            let (dir, file) = path.rsplit_once('/').unwrap_or(("", path.as_str()));
+            let rels_path = format!("{dir}/_rels/{file}.rels");
+            let Some(rels) = pkg.get_part(&rels_path) else { continue };
+            parts.insert(rels_path.clone(), rels.to_vec());
+            let Ok(root) = XmlParser::parse_str(&String::from_utf8_lossy(rels)) else { continue };
+            for rel in root.find_all_descendants("Relationship") {
+                if rel.attr("TargetMode") != Some("External")
+                    && let Some(target) = rel.attr("Target")
+                {
+                    pending.push(resolve_rel_target(dir, target));
                 }
+            }
         }
 
-        if !parts.keys().any(|p| p.starts_with("ppt/slideMasters/")) {
-            return Err(PptxError::InvalidValue(
-                "template missing ppt/slideMasters/".into(),
-            ));
+        let mut content_types = HashMap::new();
+        if let Some(types) = pkg.get_part("[Content_Types].xml")
+            && let Ok(root) = XmlParser::parse_str(&String::from_utf8_lossy(types))
+        {
+            for path in parts.keys() {
+                let part_name = format!("/{path}");
+                let ext = path.rsplit('.').next().unwrap_or_default();
+                let entry = root
+                    .find_all_descendants("Override")
+                    .into_iter()
+                    .find(|o| o.attr("PartName") == Some(part_name.as_str()))
+                    .or_else(|| {
+                        root.find_all_descendants("Default")
+                            .into_iter()
+                            .find(|d| d.attr("Extension") == Some(ext))
+                    });
+                if let Some(content_type) = entry.and_then(|e| e.attr("ContentType")) {
+                    content_types.insert(path.clone(), content_type.to_string());
+                }
+            }
         }
 
         let layout_count = parts
@@ -49,7 +93,12 @@ impl PptxTemplate {
             .count()
             .max(1);
 
-        Ok(PptxTemplate { parts, layout_count })
+        Ok(PptxTemplate { parts, content_types, layout_count })
+    }
+
+    /// Content type the template declares for one of its parts.
+    pub fn content_type(&self, path: &str) -> Option<&str> {
+        self.content_types.get(path).map(String::as_str)
     }
 
     pub fn layout_count(&self) -> usize {
@@ -60,6 +109,17 @@ impl PptxTemplate {
         &self.parts
     }
 
+    /// Template parts in name order, so that packages come out the same every time.
+    pub fn sorted_parts(&self) -> Vec<(&str, &[u8])> {
+        let mut parts: Vec<(&str, &[u8])> = self
+            .parts
+            .iter()
+            .map(|(path, data)| (path.as_str(), data.as_slice()))
+            .collect();
+        parts.sort_by_key(|(path, _)| *path);
+        parts
+    }
+
     pub fn has_layout(&self, n: usize) -> bool {
         self.parts
             .contains_key(&format!("ppt/slideLayouts/slideLayout{n}.xml"))
-- 
2.43.0


From b2d5467b0df02b119176c0429794b4d31ffa8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 04/77] fix: relate the signature origin to its signature

---
 src/generator/builder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 6913f9c..4301b41 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1365,6 +1365,15 @@ fn write_digital_signature_parts<W: Write + Seek>(
     zip.start_file("_xmlsignatures/origin.sigs", *options)?;
     zip.write_all(signature.to_origin_xml().as_bytes())?;
 
+    // The origin part leads to the signature itself.
+    zip.start_file("_xmlsignatures/_rels/origin.sigs.rels", *options)?;
+    zip.write_all(
+        br#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
+<Relationship Id="rId1" Type="http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/signature" Target="sig1.xml"/>
+</Relationships>"#,
+    )?;
+
     zip.start_file("_xmlsignatures/sig1.xml", *options)?;
     zip.write_all(signature.to_signature_xml().as_bytes())?;
 
-- 
2.43.0


From 17a8440bddd088dbee4e7250ac799527d405acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 05/77] fix: give every drawing on a slide its own id

---
 src/generator/slide_xml/content.rs | 37 ++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..19535ad 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -1,8 +1,33 @@
 //! Additional content rendering (shapes, images, code blocks, connectors)
 
+use std::collections::HashSet;
+
 use crate::generator::shapes_xml::generate_shape_xml;
 use crate::generator::slide_content::SlideContent;
 
+/// Hands out non-visual drawing ids that are unique on the slide. Ids fixed by the
+/// caller and the ids of title and body placeholders (1-9) are never given out again.
+struct ShapeIds {
+    used: HashSet<u32>,
+}
+
+impl ShapeIds {
+    fn new(content: &SlideContent) -> Self {
+        let mut used: HashSet<u32> = (0..10).collect();
+        used.extend(content.shapes.iter().filter_map(|shape| shape.id));
+        ShapeIds { used }
+    }
+
+    /// The preferred id if it is still free, otherwise the next free one.
+    fn assign(&mut self, preferred: usize) -> u32 {
+        let mut id = preferred as u32;
+        while !self.used.insert(id) {
+            id += 1;
+        }
+        id
+    }
+}
+
 /// Render additional content elements (shapes, images, code blocks, connectors, charts, ink)
 pub fn render_additional_content(
     xml: &mut String,
@@ -20,10 +45,12 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    let mut ids = ShapeIds::new(content);
+
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-        let shape_id = shape.id.unwrap_or((i + 10) as u32);
+        let shape_id = shape.id.unwrap_or_else(|| ids.assign(i + 10));
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
@@ -35,7 +62,7 @@ pub fn render_additional_content(
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
             image,
-            image_start_id + i,
+            ids.assign(image_start_id + i) as usize,
             rel_id,
         ));
     }
@@ -44,7 +71,7 @@ pub fn render_additional_content(
     let code_start_id = 30 + content.shapes.len() + content.images.len();
     for (i, code_block) in content.code_blocks.iter().enumerate() {
         xml.push('\n');
-        xml.push_str(&generate_code_block(code_start_id + i, code_block));
+        xml.push_str(&generate_code_block(ids.assign(code_start_id + i) as usize, code_block));
     }
 
     // Render connectors
@@ -52,7 +79,7 @@ pub fn render_additional_content(
         50 + content.shapes.len() + content.images.len() + content.code_blocks.len();
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
-        let id = connector_start_id + i;
+        let id = ids.assign(connector_start_id + i) as usize;
         xml.push_str(&crate::generator::connectors::generate_connector_xml(
             connector, id,
         ));
@@ -71,7 +98,7 @@ pub fn render_additional_content(
             xml.push_str(&crate::generator::charts::generate_chart_ref_xml(
                 chart,
                 r_id,
-                chart_start_id + i,
+                ids.assign(chart_start_id + i) as usize,
             ));
         }
     }
-- 
2.43.0


From 75b531f8b49e99acf1f6247aa15177cac5a5ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 06/77] fix: give shape hyperlinks relationship ids and slide
 links their own relationship type

---
 src/generator/builder.rs    | 63 +++++++++++++++++++++++++++++++++----
 src/generator/hyperlinks.rs | 16 +++++++++-
 2 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 4301b41..0f921c5 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1,11 +1,13 @@
 //! PPTX builder - orchestrates ZIP creation and file writing
 
 use std::borrow::Cow;
+use std::collections::HashSet;
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
 use zip::ZipWriter;
 use crate::exc::Result;
 use crate::core::append_usize;
+use super::hyperlinks::HyperlinkAction;
 use super::slide_content::SlideContent;
 use super::memory_profile::estimate_output_capacity;
 use super::package_cache::{self, print_affects_theme_parts};
@@ -87,23 +89,69 @@ fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Ve
 }
 
 /// Slides as they are packaged: pictures whose bytes cannot be obtained are left
-/// out (nothing could be embedded for them), so that the slide markup and the
-/// relationships agree on which pictures exist.
-fn prepare_slide(slide: &SlideContent) -> Cow<'_, SlideContent> {
+/// out (nothing could be embedded for them) and hyperlinks get their relationship
+/// ids, so that the slide markup and the relationships agree.
+fn prepare_slide(slide: &SlideContent, slide_count: usize) -> Cow<'_, SlideContent> {
     let available: Vec<bool> = slide
         .images
         .iter()
         .map(|image| image.get_bytes().is_some())
         .collect();
-    if available.iter().all(|a| *a) {
+    let all_available = available.iter().all(|a| *a);
+    if all_available && slide.shapes.iter().all(|s| s.hyperlink.is_none()) {
         return Cow::Borrowed(slide);
     }
     let mut prepared = slide.clone();
     let mut available = available.into_iter();
     prepared.images.retain(|_| available.next().unwrap_or(false));
+    assign_hyperlink_rids(&mut prepared, slide_count);
     Cow::Owned(prepared)
 }
 
+/// Give every shape hyperlink on the slide a relationship id of its own. An id
+/// set by the caller is kept unless it is not a valid id or another relationship
+/// of the slide uses it. Links to slides the deck does not have are dropped.
+fn assign_hyperlink_rids(slide: &mut SlideContent, slide_count: usize) {
+    let first_free = slide_content_rel_start(slide.notes.is_some(), slide.images.len())
+        + slide.charts.len()
+        + usize::from(slide.ink_annotations.is_some());
+    let mut used: HashSet<String> = (1..first_free).map(|n| format!("rId{n}")).collect();
+
+    for shape in &mut slide.shapes {
+        let Some(link) = shape.hyperlink.as_mut() else { continue };
+        if let HyperlinkAction::Slide(number) = link.action {
+            if number == 0 || number as usize > slide_count {
+                shape.hyperlink = None;
+                continue;
+            }
+        }
+        if !link.action.needs_relationship() {
+            link.r_id = Some(String::new());
+            continue;
+        }
+        let keep = link.r_id.as_ref().is_some_and(|id| {
+            id.starts_with(|c: char| c.is_ascii_alphabetic())
+                && id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+                && !used.contains(id)
+        });
+        if !keep {
+            link.r_id = None;
+        }
+        used.extend(link.r_id.clone());
+    }
+
+    let mut next = first_free;
+    for link in slide.shapes.iter_mut().filter_map(|s| s.hyperlink.as_mut()) {
+        if link.r_id.is_none() {
+            while used.contains(&format!("rId{next}")) {
+                next += 1;
+            }
+            link.r_id = Some(format!("rId{next}"));
+            next += 1;
+        }
+    }
+}
+
 /// Collect hyperlink relationship XML (`<Relationship .../>`) for every shape on
 /// the slide whose hyperlink has an assigned relationship id. The slide XML
 /// references these ids via `<a:hlinkClick r:id="..."/>`, so the matching
@@ -113,6 +161,7 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .shapes
         .iter()
         .filter_map(|s| s.hyperlink.as_ref())
+        .filter(|h| h.action.needs_relationship())
         .filter_map(|h| {
             h.r_id
                 .as_ref()
@@ -1032,7 +1081,7 @@ fn write_slide_packages_lazy<W: Write + Seek>(
         let Some(slide) = slides.generate_slide(i) else {
             continue;
         };
-        let slide = prepare_slide(&slide);
+        let slide = prepare_slide(&slide, slide_chart_start_indices.len());
         let slide = slide.as_ref();
         let slide_num = i + 1;
         let layout_number = resolve_layout_number(slide, template);
@@ -1152,7 +1201,7 @@ fn write_slides<W: Write + Seek>(
             let mut ink_part_num = 0usize;
             for (i, slide) in slides.iter().enumerate() {
                 let slide_num = i + 1;
-                let slide = prepare_slide(slide);
+                let slide = prepare_slide(slide, slides.len());
                 let slide = slide.as_ref();
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
@@ -1222,6 +1271,8 @@ fn write_slide_relationships_extended<W: Write + Seek>(
             let mut ink_part_num = 0usize;
             for (i, slide) in slides.iter().enumerate() {
                 let slide_num = i + 1;
+                let slide = prepare_slide(slide, slides.len());
+                let slide = slide.as_ref();
                 let layout_number = resolve_layout_number(slide, template);
                 let images = slide_image_rel_targets(slide, &media_registry);
                 let image_count = images.len();
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..46d667b 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -88,9 +88,16 @@ impl HyperlinkAction {
         )
     }
 
+    /// Check if this link is expressed through a relationship of the slide.
+    /// Jumps within the show are expressed by their action alone.
+    pub(crate) fn needs_relationship(&self) -> bool {
+        self.is_external() || matches!(self, HyperlinkAction::Slide(_))
+    }
+
     /// Get the action type for internal links
     pub fn action_type(&self) -> Option<&'static str> {
         match self {
+            HyperlinkAction::Slide(_) => Some("ppaction://hlinksldjump"),
             HyperlinkAction::FirstSlide => Some("ppaction://hlinkshowjump?jump=firstslide"),
             HyperlinkAction::LastSlide => Some("ppaction://hlinkshowjump?jump=lastslide"),
             HyperlinkAction::NextSlide => Some("ppaction://hlinkshowjump?jump=nextslide"),
@@ -209,9 +216,16 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
         ""
     };
 
+    let rel_type = if matches!(hyperlink.action, HyperlinkAction::Slide(_)) {
+        "slide"
+    } else {
+        "hyperlink"
+    };
+
     format!(
-        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
+        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}" Target="{}"{}/>"#,
         r_id,
+        rel_type,
         escape_xml(&target),
         target_mode
     )
-- 
2.43.0


From 494762991b175cc2e1fd4724de3c151b532490b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 07/77] fix: escape_xml drops characters XML cannot represent
 and keeps tabs and line ends

---
 src/core/xml_utils.rs | 52 ++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/core/xml_utils.rs b/src/core/xml_utils.rs
index f567516..5328696 100644
--- a/src/core/xml_utils.rs
+++ b/src/core/xml_utils.rs
@@ -4,47 +4,43 @@
 
 use std::fmt::Write;
 
+/// What a character becomes in XML text or attribute values, or `None` if it
+/// stands for itself. Tab, line feed and carriage return are written as
+/// references because a reader would otherwise normalise them, and characters
+/// XML cannot represent at all are dropped.
+fn xml_replacement(c: char) -> Option<&'static str> {
+    match c {
+        '&' => Some("&amp;"),
+        '<' => Some("&lt;"),
+        '>' => Some("&gt;"),
+        '"' => Some("&quot;"),
+        '\'' => Some("&apos;"),
+        '\t' => Some("&#9;"),
+        '\n' => Some("&#10;"),
+        '\r' => Some("&#13;"),
+        '\0'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => Some(""),
+        _ => None,
+    }
+}
+
 /// Escape special XML characters in a single pass.
 pub fn escape_xml(s: &str) -> String {
     // Fast path: most strings need no escaping.
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if !s.chars().any(|c| xml_replacement(c).is_some()) {
         return s.to_string();
     }
 
     let mut out = String::with_capacity(s.len() + 8);
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
+    append_escape_xml(&mut out, s);
     out
 }
 
 /// Append escaped XML text into an existing buffer (avoids intermediate String).
 pub fn append_escape_xml(buf: &mut String, s: &str) {
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
-        buf.push_str(s);
-        return;
-    }
     for c in s.chars() {
-        match c {
-            '&' => buf.push_str("&amp;"),
-            '<' => buf.push_str("&lt;"),
-            '>' => buf.push_str("&gt;"),
-            '"' => buf.push_str("&quot;"),
-            '\'' => buf.push_str("&apos;"),
-            _ => buf.push(c),
+        match xml_replacement(c) {
+            Some(replacement) => buf.push_str(replacement),
+            None => buf.push(c),
         }
     }
 }
-- 
2.43.0


From 8b20337dd929ec03cc46f13ef266b01eff532a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 08/77] fix: embedded fonts get file names and relationship ids
 of their own

---
 src/generator/builder.rs                      |  6 +-
 src/generator/package_xml.rs                  |  7 +-
 src/generator/slide_content/embedded_fonts.rs | 65 ++++++++++++++++---
 3 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 0f921c5..d508862 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -524,7 +524,7 @@ fn prepare_settings(settings: &mut Option<PresentationSettings>, slide_count: us
     if let Some(s) = settings
         && let Some(fonts) = s.embedded_fonts.as_mut() {
             let first_rid = table_styles_rel_id(slide_count, has_notes, has_handout) + 1;
-            fonts.assign_relationship_ids(first_rid);
+            fonts.prepare_for_package(first_rid);
         }
 }
 
@@ -1378,8 +1378,8 @@ fn write_embedded_font_parts<W: Write + Seek>(
     options: &FileOptions,
     fonts: &super::slide_content::embedded_fonts::EmbeddedFontList,
 ) -> Result<()> {
-    for font in fonts.fonts() {
-        zip.start_file(font.part_name(), *options)?;
+    for (font, file_name) in fonts.fonts().iter().zip(fonts.file_names()) {
+        zip.start_file(format!("ppt/fonts/{file_name}"), *options)?;
         zip.write_all(&font.data)?;
     }
     Ok(())
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 9adf108..45b99b8 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -261,14 +261,13 @@ pub fn create_presentation_rels_xml_full_with_fonts(
 ) -> String {
     let mut xml = create_presentation_rels_xml_full(slides, has_notes, has_handout);
 
-    for font in fonts.fonts() {
-        let target = font.rel_target();
+    for (font, file_name) in fonts.fonts().iter().zip(fonts.file_names()) {
         xml.insert_str(
             xml.rfind("</Relationships>").unwrap_or(xml.len()),
             &format!(
-                r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/font" Target="{}"/>"#,
+                r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/font" Target="fonts/{}"/>"#,
                 font.relationship_id,
-                escape_xml(&target),
+                file_name,
             ),
         );
     }
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..aed754b 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -4,6 +4,10 @@
 //! on systems that don't have the fonts installed. Generates proper
 //! `<p:embeddedFontLst>` XML in presentation.xml.
 
+use std::collections::HashSet;
+
+use crate::core::escape_xml;
+
 /// Font style variant
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Hash)]
 pub enum FontStyle {
@@ -183,6 +187,55 @@ impl EmbeddedFontList {
         }
     }
 
+    /// Make the list packageable: one entry per typeface and style (the first
+    /// given), and a relationship id for each that no other relationship of the
+    /// presentation has. `start` is the first relationship number to use.
+    pub(crate) fn prepare_for_package(&mut self, start: usize) {
+        let mut faces = HashSet::new();
+        self.fonts
+            .retain(|font| faces.insert((font.typeface.clone(), font.style.xml_element())));
+
+        let mut used: HashSet<String> = (1..start).map(|n| format!("rId{n}")).collect();
+        for font in &mut self.fonts {
+            let id = &font.relationship_id;
+            let valid = id.starts_with(|c: char| c.is_ascii_alphabetic())
+                && id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+            if !valid || !used.insert(id.clone()) {
+                font.relationship_id.clear();
+            }
+        }
+        let mut next = start;
+        for font in self.fonts.iter_mut().filter(|f| f.relationship_id.is_empty()) {
+            while !used.insert(format!("rId{next}")) {
+                next += 1;
+            }
+            font.relationship_id = format!("rId{next}");
+        }
+    }
+
+    /// File name of each font's data part, in list order and without collisions.
+    pub(crate) fn file_names(&self) -> Vec<String> {
+        let mut used = HashSet::new();
+        self.fonts
+            .iter()
+            .map(|font| {
+                let stem: String = font
+                    .typeface
+                    .chars()
+                    .filter(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_'))
+                    .collect();
+                let style = font.style.xml_element();
+                let mut name = format!("{stem}-{style}.fntdata");
+                let mut copy = 2;
+                while !used.insert(name.to_ascii_lowercase()) {
+                    name = format!("{stem}-{style}-{copy}.fntdata");
+                    copy += 1;
+                }
+                name
+            })
+            .collect()
+    }
+
     /// Total size of all font data
     pub fn total_size(&self) -> usize {
         self.fonts.iter().map(|f| f.data_size()).sum()
@@ -220,11 +273,11 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, escape_xml(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
-                    xml_escape(typeface),
+                    escape_xml(typeface),
                     first.charset.code(),
                     first.pitch_family,
                     panose_attr,
@@ -248,14 +301,6 @@ impl EmbeddedFontList {
     }
 }
 
-fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 788b6debd16c0ddc98417a154d15dbdbfe7fff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 09/77] fix: escape caller text in properties, bullets, fonts,
 signatures and part tables

---
 src/generator/layouts/common.rs               |  2 +-
 src/generator/presentation_theme.rs           | 14 ++++-------
 src/generator/props_xml.rs                    | 25 +++++--------------
 src/generator/slide_content/bullet.rs         |  6 +++--
 src/generator/slide_content/comments.rs       | 18 +++++--------
 .../slide_content/digital_signature.rs        | 18 +++++--------
 src/generator/slide_content/print_settings.rs | 14 +++--------
 src/generator/slide_content/sections.rs       | 12 +++------
 src/generator/slide_xml/mod.rs                |  3 ++-
 src/parts/app_props.rs                        |  3 ++-
 src/parts/content_types.rs                    |  7 ++++--
 src/parts/coreprops.rs                        | 21 ++++++----------
 src/parts/relationships.rs                    |  6 ++---
 src/parts/table.rs                            |  2 +-
 src/parts/theme.rs                            |  6 ++++-
 15 files changed, 60 insertions(+), 97 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..7978297 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -82,7 +82,7 @@ impl ExtendedTextProps {
             ));
         }
         
-        if let Some(ref font) = self.font_family {
+        if let Some(font) = self.font_family.as_deref().map(escape_xml) {
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..b635c56 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -2,6 +2,8 @@
 //!
 //! Maps semantic color roles and fonts into ECMA-376 `ppt/theme/theme1.xml`.
 
+use crate::core::escape_xml;
+
 /// ECMA-376 color scheme (12 slots used by PowerPoint theme)
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct ThemeColorScheme {
@@ -256,7 +258,7 @@ impl PresentationTheme {
             color_slot("folHlink", &c.fol_hlink),
         ]
         .join("");
-        let scheme_name = escape_xml_attr(&self.name);
+        let scheme_name = escape_xml(&self.name);
         let clr_scheme = format!(r#"<a:clrScheme name="{scheme_name}">{colors_xml}</a:clrScheme>"#);
 
         let mut xml = office_theme_xml().to_string();
@@ -267,7 +269,7 @@ impl PresentationTheme {
             xml.replace_range(start..end, &clr_scheme);
         }
 
-        let theme_name = escape_xml_attr(&self.name);
+        let theme_name = escape_xml(&self.name);
         if let Some(start) = xml.find(r#"name=""#) {
             let name_start = start + 6;
             if let Some(end) = xml[name_start..].find('"') {
@@ -294,7 +296,7 @@ fn replace_font_latin(xml: &mut String, font_tag: &str, typeface: &str) {
     };
     let abs = start + rel + LATIN_PREFIX.len();
     if let Some(end) = xml[abs..].find('"') {
-        let escaped = escape_xml_attr(typeface);
+        let escaped = escape_xml(typeface);
         xml.replace_range(abs..abs + end, &escaped);
     }
 }
@@ -308,12 +310,6 @@ fn normalize_hex(hex: &str) -> String {
     hex.trim().trim_start_matches('#').to_uppercase()
 }
 
-fn escape_xml_attr(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('"', "&quot;")
-        .replace('<', "&lt;")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..68ee43e 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -1,5 +1,7 @@
 //! Document properties XML generation
 
+use crate::core::escape_xml;
+
 /// Get current timestamp in ISO 8601 format (UTC)
 fn current_timestamp() -> String {
     let duration = std::time::SystemTime::now()
@@ -31,32 +33,17 @@ pub fn create_core_props_xml(title: &str) -> String {
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
-<dc:title>{title}</dc:title>
+<dc:title>{}</dc:title>
 <dc:creator>pptx-rs</dc:creator>
 <cp:lastModifiedBy>pptx-rs</cp:lastModifiedBy>
 <cp:revision>1</cp:revision>
 <dcterms:created xsi:type="dcterms:W3CDTF">{now}</dcterms:created>
 <dcterms:modified xsi:type="dcterms:W3CDTF">{now}</dcterms:modified>
-</cp:coreProperties>"#
+</cp:coreProperties>"#,
+        escape_xml(title)
     )
 }
 
-/// Escape a string for use in XML text content / attribute values.
-fn xml_escape(s: &str) -> String {
-    let mut out = String::with_capacity(s.len());
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
-    out
-}
-
 /// Build the `<HeadingPairs>` and `<TitlesOfParts>` elements.
 ///
 /// PowerPoint refuses to open a deck (offering to repair it) when these two
@@ -71,7 +58,7 @@ fn heading_pairs_and_titles(slide_titles: &[String]) -> String {
     let mut titles_xml = String::with_capacity(count * 32);
     for title in slide_titles {
         titles_xml.push_str("<vt:lpstr>");
-        titles_xml.push_str(&xml_escape(title));
+        titles_xml.push_str(&escape_xml(title));
         titles_xml.push_str("</vt:lpstr>");
     }
 
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..c1a5c5a 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -1,6 +1,6 @@
 //! Bullet point types and formatting
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 
 /// Bullet style for lists
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
@@ -34,7 +34,9 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => {
+                format!(r#"<a:buChar char="{}"/>"#, escape_xml(&ch.to_string()))
+            },
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..fb7b52f 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -3,6 +3,8 @@
 //! Supports adding review comments to slides with author, date, and position.
 //! Generates proper OOXML `<p:cmLst>` and `<p:cmAuthorLst>` XML.
 
+use crate::core::escape_xml;
+
 use std::collections::HashMap;
 
 /// A comment author
@@ -34,8 +36,8 @@ impl CommentAuthor {
         format!(
             r#"<p:cmAuthor id="{}" name="{}" initials="{}" lastIdx="1" clrIdx="{}"/>"#,
             self.id,
-            xml_escape(&self.name),
-            xml_escape(&self.initials),
+            escape_xml(&self.name),
+            escape_xml(&self.initials),
             self.color_index,
         )
     }
@@ -89,11 +91,11 @@ impl Comment {
         format!(
             r#"<p:cm authorId="{}" dt="{}" idx="{}"><p:pos x="{}" y="{}"/><p:text>{}</p:text></p:cm>"#,
             self.author_id,
-            xml_escape(&self.date),
+            escape_xml(&self.date),
             self.index,
             self.x,
             self.y,
-            xml_escape(&self.text),
+            escape_xml(&self.text),
         )
     }
 }
@@ -217,14 +219,6 @@ impl SlideComments {
     }
 }
 
-fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..5ddbf7b 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -3,6 +3,8 @@
 //! Provides digital signature metadata and XML generation for the
 //! `_xmlsignatures/` package part per the OOXML digital signature spec.
 
+use crate::core::escape_xml;
+
 /// Hash algorithm used for signing
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
 pub enum HashAlgorithm {
@@ -143,7 +145,7 @@ impl DigitalSignature {
     pub fn to_signature_xml(&self) -> String {
         let date = self.sign_date.as_deref().unwrap_or("2025-01-01T00:00:00Z");
         let comments_xml = self.comments.as_ref()
-            .map(|c| format!("<SignatureComments>{}</SignatureComments>", xml_escape(c)))
+            .map(|c| format!("<SignatureComments>{}</SignatureComments>", escape_xml(c)))
             .unwrap_or_default();
 
         let mut xml = String::from(r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>"#);
@@ -159,18 +161,18 @@ impl DigitalSignature {
         xml.push_str(r#"<KeyInfo>"#);
         xml.push_str(&format!(
             r#"<KeyName>{}</KeyName>"#,
-            xml_escape(&self.signer.name)
+            escape_xml(&self.signer.name)
         ));
         xml.push_str(r#"</KeyInfo>"#);
         xml.push_str("<Object>");
         xml.push_str(&format!(
             "<SignatureProperties><SignatureProperty Target=\"#SignatureInfo\"><SignatureInfoV1 xmlns=\"http://schemas.microsoft.com/office/2006/digsig\"><SetupID/><SignatureText>{}</SignatureText>{}<SignatureType>1</SignatureType><SignatureProviderUrl/><SignatureProviderDetails>9</SignatureProviderDetails><ManifestHashAlgorithm>{}</ManifestHashAlgorithm><SignatureProviderId>{{{{00000000-0000-0000-0000-000000000000}}}}</SignatureProviderId><CommitmentTypeId>{}</CommitmentTypeId><CommitmentTypeQualifier>{}</CommitmentTypeQualifier><SigningTime>{}</SigningTime></SignatureInfoV1></SignatureProperty></SignatureProperties>",
-            xml_escape(&self.signer.name),
+            escape_xml(&self.signer.name),
             comments_xml,
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            escape_xml(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
@@ -183,14 +185,6 @@ impl DigitalSignature {
     }
 }
 
-fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/generator/slide_content/print_settings.rs b/src/generator/slide_content/print_settings.rs
index c19576d..100fbb8 100644
--- a/src/generator/slide_content/print_settings.rs
+++ b/src/generator/slide_content/print_settings.rs
@@ -3,6 +3,8 @@
 //! Controls print layout, handout options, and page setup.
 //! Generates `<p:prnPr>` and handout master XML.
 
+use crate::core::escape_xml;
+
 /// Handout layout (slides per page)
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
 pub enum HandoutLayout {
@@ -203,14 +205,14 @@ impl PrintSettings {
         if let Some(ref header) = self.header {
             xml.push_str(&format!(
                 r#"<p:sp><p:nvSpPr><p:cNvPr id="2" name="Header"/><p:cNvSpPr><a:spLocks noGrp="1"/></p:cNvSpPr><p:nvPr><p:ph type="hdr"/></p:nvPr></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/><a:lstStyle/><a:p><a:r><a:t>{}</a:t></a:r></a:p></p:txBody></p:sp>"#,
-                xml_escape(header)
+                escape_xml(header)
             ));
         }
 
         if let Some(ref footer) = self.footer {
             xml.push_str(&format!(
                 r#"<p:sp><p:nvSpPr><p:cNvPr id="3" name="Footer"/><p:cNvSpPr><a:spLocks noGrp="1"/></p:cNvSpPr><p:nvPr><p:ph type="ftr"/></p:nvPr></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/><a:lstStyle/><a:p><a:r><a:t>{}</a:t></a:r></a:p></p:txBody></p:sp>"#,
-                xml_escape(footer)
+                escape_xml(footer)
             ));
         }
 
@@ -231,14 +233,6 @@ impl PrintSettings {
     }
 }
 
-fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..8e2bf3c 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -3,6 +3,8 @@
 //! Provides section management for grouping slides into logical sections.
 //! Generates proper OOXML `<p:extLst>` section data in presentation.xml.
 
+use crate::core::escape_xml;
+
 /// A section that groups consecutive slides
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct SlideSection {
@@ -128,7 +130,7 @@ impl SectionManager {
         for section in &self.sections {
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
-                xml_escape(&section.name),
+                escape_xml(&section.name),
                 generate_section_id(&section.name),
             ));
             xml.push_str("<p14:sldIdLst>");
@@ -176,14 +178,6 @@ fn generate_section_id(name: &str) -> String {
     )
 }
 
-fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/generator/slide_xml/mod.rs b/src/generator/slide_xml/mod.rs
index d3afdb2..9d56c62 100644
--- a/src/generator/slide_xml/mod.rs
+++ b/src/generator/slide_xml/mod.rs
@@ -13,13 +13,14 @@ mod layouts;
 mod content;
 
 use super::slide_content::{SlideContent, SlideLayout};
+use crate::core::escape_xml;
 
 pub use common::create_slide_rels_xml;
 
 /// Create simple slide XML
 pub fn create_slide_xml(slide_num: usize, title: &str) -> String {
     let slide_title = if slide_num == 1 {
-        title.to_string()
+        escape_xml(title)
     } else {
         format!("Slide {slide_num}")
     };
diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index b806ecf..d1ce306 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -3,6 +3,7 @@
 //! Represents docProps/app.xml with application-specific metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Application properties part (docProps/app.xml)
@@ -73,7 +74,7 @@ impl AppPropertiesPart {
         let company_xml = self
             .company
             .as_ref()
-            .map(|c| format!("<Company>{}</Company>", c))
+            .map(|c| format!("<Company>{}</Company>", escape_xml(c)))
             .unwrap_or_default();
 
         format!(
diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..1be437f 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -3,6 +3,7 @@
 //! Represents `[Content_Types].xml` which defines MIME types for all parts.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Default content type mapping (by extension)
@@ -160,7 +161,8 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    escape_xml(&d.extension),
+                    escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +174,8 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    escape_xml(&o.part_name),
+                    escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 76bf8ba..1d3bbbd 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -3,6 +3,7 @@
 //! Represents docProps/core.xml with document metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -108,14 +109,6 @@ impl CorePropertiesPart {
             *rev += 1;
         }
     }
-
-    fn escape_xml(s: &str) -> String {
-        s.replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;")
-            .replace('"', "&quot;")
-            .replace('\'', "&apos;")
-    }
 }
 
 impl Default for CorePropertiesPart {
@@ -141,36 +134,36 @@ impl Part for CorePropertiesPart {
         let mut elements = Vec::new();
 
         if let Some(ref title) = self.title {
-            elements.push(format!("<dc:title>{}</dc:title>", Self::escape_xml(title)));
+            elements.push(format!("<dc:title>{}</dc:title>", escape_xml(title)));
         }
         if let Some(ref subject) = self.subject {
             elements.push(format!(
                 "<dc:subject>{}</dc:subject>",
-                Self::escape_xml(subject)
+                escape_xml(subject)
             ));
         }
         if let Some(ref creator) = self.creator {
             elements.push(format!(
                 "<dc:creator>{}</dc:creator>",
-                Self::escape_xml(creator)
+                escape_xml(creator)
             ));
         }
         if let Some(ref keywords) = self.keywords {
             elements.push(format!(
                 "<cp:keywords>{}</cp:keywords>",
-                Self::escape_xml(keywords)
+                escape_xml(keywords)
             ));
         }
         if let Some(ref description) = self.description {
             elements.push(format!(
                 "<dc:description>{}</dc:description>",
-                Self::escape_xml(description)
+                escape_xml(description)
             ));
         }
         if let Some(ref last_modified_by) = self.last_modified_by {
             elements.push(format!(
                 "<cp:lastModifiedBy>{}</cp:lastModifiedBy>",
-                Self::escape_xml(last_modified_by)
+                escape_xml(last_modified_by)
             ));
         }
         if let Some(revision) = self.revision {
diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..9e16997 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -2,7 +2,7 @@
 //!
 //! Manages relationships between parts in a PPTX package.
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -86,9 +86,9 @@ impl Relationship {
     pub fn to_xml(&self) -> String {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
+            escape_xml(&self.id),
             self.rel_type.uri(),
-            self.target
+            escape_xml(&self.target)
         )
     }
 }
diff --git a/src/parts/table.rs b/src/parts/table.rs
index f5e7de2..6ca8e33 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -415,7 +415,7 @@ impl TableCellPart {
         let font_xml = self
             .font_family
             .as_ref()
-            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, f))
+            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         // Paragraph alignment
diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 48a9961..3f4d030 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -3,6 +3,7 @@
 //! Represents a theme (ppt/theme/themeN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Theme color
@@ -178,7 +179,10 @@ impl ThemePart {
   <a:objectDefaults/>
   <a:extraClrSchemeLst/>
 </a:theme>"#,
-            self.name, colors_xml, self.major_font.typeface, self.minor_font.typeface
+            escape_xml(&self.name),
+            colors_xml,
+            escape_xml(&self.major_font.typeface),
+            escape_xml(&self.minor_font.typeface)
         )
     }
 }
-- 
2.43.0


From bfb44279e4ab427df4498345d5f1cb6bab7ededb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 10/77] fix: escape the remaining application properties

---
 src/parts/app_props.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index d1ce306..8043ef9 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -95,10 +95,10 @@ impl AppPropertiesPart {
   <SharedDoc>{}</SharedDoc>
   <HyperlinksChanged>{}</HyperlinksChanged>
 </Properties>"#,
-            self.application,
-            self.app_version,
+            escape_xml(&self.application),
+            escape_xml(&self.app_version),
             company_xml,
-            self.presentation_format,
+            escape_xml(&self.presentation_format),
             self.slides,
             self.paragraphs,
             self.words,
-- 
2.43.0


From 211a26ca482d8faf0941baec234a64d54e744244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 11/77] fix: chart markup carries its series, categories and
 axes where readers look for them

Points of a series were all numbered 0, series names, categories and axes sat in places the
chart schema has no room for, ranges pointed at the wrong cells, and bar and line charts ignored
their direction and grouping.
---
 src/generator/charts/xml.rs | 371 +++++++++++++++++-------------------
 1 file changed, 177 insertions(+), 194 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..9b24b65 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -109,45 +109,105 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
+/// Worksheet column of series `idx` (series start in column B)
+fn series_column(idx: usize) -> String {
+    let mut n = idx + 2;
+    let mut column = String::new();
+    while n > 0 {
+        column.insert(0, (b'A' + ((n - 1) % 26) as u8) as char);
+        n = (n - 1) / 26;
+    }
+    column
+}
+
+/// Generate the series name reference (c:tx)
+fn series_text_xml(idx: usize, series_name: &str) -> String {
+    format!(
+        r#"
+<c:tx>
+<c:strRef>
+<c:f>Sheet1!${}$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
+</c:tx>"#,
+        series_column(idx),
+        escape_xml(series_name)
+    )
+}
+
+/// Generate the category reference of a series (c:cat)
+fn category_data_xml(chart: &Chart) -> String {
+    if chart.categories.is_empty() {
+        return String::new();
+    }
+    let mut xml = format!(
+        r#"
+<c:cat>
+<c:strRef>
+<c:f>Sheet1!$A$2:$A${}</c:f>
+<c:strCache>
+<c:ptCount val="{}"/>"#,
+        1 + chart.category_count(),
+        chart.category_count()
+    );
+
+    for (idx, cat) in chart.categories.iter().enumerate() {
+        xml.push_str(&format!(
+            r#"
+<c:pt idx="{}">
+<c:v>{}</c:v>
+</c:pt>"#,
+            idx, escape_xml(cat)
+        ));
+    }
+
+    xml.push_str(
+        r#"
+</c:strCache>
+</c:strRef>
+</c:cat>"#
+    );
+
+    xml
+}
+
 /// Generate series data XML
-fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+    let column = series_column(idx);
     let mut xml = format!(
         r#"
 <c:ser>
 <c:idx val="{}"/>
-<c:order val="{}"/>
-<c:title>
-<c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
-</c:tx>
-</c:title>
+<c:order val="{}"/>{}
 <c:dLbls>
 <c:showVal val="0"/>
-</c:dLbls>
+</c:dLbls>{}
 <c:val>
 <c:numRef>
-<c:f>Sheet1!$B${}:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+        idx,
+        idx,
+        series_text_xml(idx, series_name),
+        category_data_xml(chart),
+        column,
+        column,
+        1 + values.len(),
+        values.len()
     );
 
-    for value in values {
+    for (point, value) in values.iter().enumerate() {
         xml.push_str(&format!(
             r#"
-<c:pt idx="0">
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
+            point, value
         ));
     }
 
@@ -162,9 +222,14 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
     xml
 }
 
+/// References from a chart group to its category and value axes
+const AXIS_IDS: &str = r#"
+<c:axId val="1"/>
+<c:axId val="2"/>"#;
+
 /// Generate category axis XML
-fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
-    let mut xml = format!(
+fn generate_category_axis(ax_pos: &str) -> String {
+    format!(
         r#"
 <c:catAx>
 <c:axId val="1"/>
@@ -178,39 +243,22 @@ fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
 <c:tickLblPos val="low"/>
 <c:crossAx val="2"/>
 <c:crosses val="autoZero"/>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-        ax_pos, 1 + chart.category_count(), chart.category_count()
-    );
-
-    for (idx, cat) in chart.categories.iter().enumerate() {
-        xml.push_str(&format!(
-            r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-            idx, escape_xml(cat)
-        ));
-    }
-
-    xml.push_str(
-        r#"
-</c:strCache>
-</c:strRef>
-</c:catAx>"#
-    );
-
-    xml
+</c:catAx>"#,
+        ax_pos
+    )
 }
 
 /// Generate value axis XML
 fn generate_value_axis(ax_pos: &str) -> String {
+    generate_value_axis_with_ids(ax_pos, 2, 1)
+}
+
+/// Generate value axis XML with explicit axis ids (XY charts have two value axes)
+fn generate_value_axis_with_ids(ax_pos: &str, id: u32, crosses: u32) -> String {
     format!(
         r#"
 <c:valAx>
-<c:axId val="2"/>
+<c:axId val="{}"/>
 <c:scaling>
 <c:orientation val="minMax"/>
 </c:scaling>
@@ -219,10 +267,10 @@ fn generate_value_axis(ax_pos: &str) -> String {
 <c:majorGridlines/>
 <c:numFmt formatCode="General" sourceLinked="1"/>
 <c:tickLblPos val="low"/>
-<c:crossAx val="1"/>
+<c:crossAx val="{}"/>
 <c:crosses val="autoZero"/>
 </c:valAx>"#,
-        ax_pos
+        id, ax_pos, crosses
     )
 }
 
@@ -230,17 +278,21 @@ fn generate_value_axis(ax_pos: &str) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    let bar_direction = chart.chart_type.bar_direction().unwrap_or("col");
+    let grouping = chart.chart_type.grouping().unwrap_or("clustered");
+    xml.push_str(&format!(r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#, bar_direction, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "l"));
-    xml.push_str(&generate_value_axis("b"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
+    let (category_pos, value_pos) = if bar_direction == "bar" { ("l", "b") } else { ("b", "l") };
+    xml.push_str(&generate_category_axis(category_pos));
+    xml.push_str(&generate_value_axis(value_pos));
     xml.push_str(chart_part_footer());
 
     xml
@@ -250,16 +302,18 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+    let grouping = chart.chart_type.grouping().unwrap_or("standard");
+    xml.push_str(&format!(r#"<c:lineChart>
+<c:grouping val="{}"/>"#, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:lineChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -278,32 +332,21 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             r#"
 <c:ser>
 <c:idx val="0"/>
-<c:order val="0"/>
-<c:title>
-<c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
-</c:tx>
-</c:title>
+<c:order val="0"/>{}
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>{}
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_text_xml(0, &series.name),
+            category_data_xml(chart),
+            1 + series.values.len(),
+            series.values.len()
         ));
 
         for (idx, value) in series.values.iter().enumerate() {
@@ -316,35 +359,11 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
@@ -360,8 +379,7 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:doughnutChart>
-<c:varyColors val="1"/>
-<c:holeSize val="50"/>"#);
+<c:varyColors val="1"/>"#);
 
     // Doughnut chart uses first series only (like pie)
     if let Some(series) = chart.series.first() {
@@ -369,27 +387,21 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             r#"
 <c:ser>
 <c:idx val="0"/>
-<c:order val="0"/>
-<c:tx>
-<c:strRef>
-<c:f>Sheet1!$B$1</c:f>
-<c:strCache>
-<c:ptCount val="1"/>
-<c:pt idx="0"><c:v>{}</c:v></c:pt>
-</c:strCache>
-</c:strRef>
-</c:tx>
+<c:order val="0"/>{}
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>{}
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_text_xml(0, &series.name),
+            category_data_xml(chart),
+            1 + series.values.len(),
+            series.values.len()
         ));
 
         for (idx, value) in series.values.iter().enumerate() {
@@ -402,39 +414,16 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
 
+    xml.push_str("\n<c:holeSize val=\"50\"/>");
     xml.push_str("</c:doughnutChart>");
     xml.push_str(chart_part_footer());
 
@@ -453,9 +442,10 @@ fn generate_area_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:areaChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -474,22 +464,14 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
             r#"
 <c:ser>
 <c:idx val="{}"/>
-<c:order val="{}"/>
-<c:tx>
-<c:strRef>
-<c:f>Sheet1!$B$1</c:f>
-<c:strCache>
-<c:ptCount val="1"/>
-<c:pt idx="0"><c:v>{}</c:v></c:pt>
-</c:strCache>
-</c:strRef>
-</c:tx>
+<c:order val="{}"/>{}
 <c:xVal>
 <c:numRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            idx, idx, series_text_xml(idx, &series.name), 1 + series.values.len(), series.values.len()
         ));
 
         // X values (use index as X)
@@ -510,10 +492,11 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -535,9 +518,10 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:scatterChart>");
+    xml.push_str(&generate_value_axis_with_ids("b", 1, 2));
+    xml.push_str(&generate_value_axis_with_ids("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -548,30 +532,21 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:bubbleChart>
-<c:varyColors val="0"/>
-<c:bubbleScale val="100"/>"#);
+<c:varyColors val="0"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&format!(
             r#"
 <c:ser>
 <c:idx val="{}"/>
-<c:order val="{}"/>
-<c:tx>
-<c:strRef>
-<c:f>Sheet1!$B$1</c:f>
-<c:strCache>
-<c:ptCount val="1"/>
-<c:pt idx="0"><c:v>{}</c:v></c:pt>
-</c:strCache>
-</c:strRef>
-</c:tx>
+<c:order val="{}"/>{}
 <c:xVal>
 <c:numRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            idx, idx, series_text_xml(idx, &series.name), 1 + series.values.len(), series.values.len()
         ));
 
         for (i, _) in series.values.iter().enumerate() {
@@ -591,10 +566,11 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -614,10 +590,11 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:yVal>
 <c:bubbleSize>
 <c:numRef>
-<c:f>Sheet1!$C$2:$C${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
         // Bubble sizes (use values as sizes)
@@ -640,9 +617,11 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str("\n<c:bubbleScale val=\"100\"/>");
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:bubbleChart>");
+    xml.push_str(&generate_value_axis_with_ids("b", 1, 2));
+    xml.push_str(&generate_value_axis_with_ids("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -660,9 +639,10 @@ fn generate_radar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:radarChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -679,9 +659,10 @@ fn generate_stock_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:stockChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -701,8 +682,7 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
 
     // Second half as lines
@@ -714,9 +694,12 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
             xml.push_str(&generate_series_data(chart, mid + idx, &series.name, &series.values));
         }
 
+        xml.push_str(AXIS_IDS);
         xml.push_str("</c:lineChart>");
     }
 
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l"));
     xml.push_str(chart_part_footer());
 
     xml
-- 
2.43.0


From 2b463c7daa5dad9648f9e63fe3988dff75e2ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 12/77] fix: create_pptx titles its first slide with the given
 title

---
 src/generator/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index d508862..a991ba8 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -840,7 +840,7 @@ fn write_package_files<W: Write + Seek>(
     }
 
     // 7. Slides
-    write_slides(zip, options, slide_count, custom_slides)?;
+    write_slides(zip, options, slide_count, title, custom_slides)?;
 
     // 8. Slide relationships
     write_slide_relationships_extended(
@@ -1191,6 +1191,7 @@ fn write_slides<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     slide_count: usize,
+    title: &str,
     custom_slides: Option<&[SlideContent]>,
 ) -> Result<()> {
     let mut zip_path = String::with_capacity(48);
@@ -1241,7 +1242,7 @@ fn write_slides<W: Write + Seek>(
         }
         None => {
             for i in 1..=slide_count {
-                let slide_xml = create_slide_xml(i, "Presentation");
+                let slide_xml = create_slide_xml(i, title);
                 set_slide_xml_path(&mut zip_path, i);
                 zip.start_file(&zip_path, *options)?;
                 zip.write_all(slide_xml.as_bytes())?;
-- 
2.43.0


From 9172958013986d1c5a50853effa079f32d730097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 13/77] fix: a lazy source that cannot supply a slide it counts
 is an error

---
 src/generator/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index a991ba8..5edd20f 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1079,7 +1079,9 @@ fn write_slide_packages_lazy<W: Write + Seek>(
 
     for (i, &start_chart_idx) in slide_chart_start_indices.iter().enumerate() {
         let Some(slide) = slides.generate_slide(i) else {
-            continue;
+            return Err(crate::exc::PptxError::InvalidValue(format!(
+                "slide source has no slide at index {i}"
+            )));
         };
         let slide = prepare_slide(&slide, slide_chart_start_indices.len());
         let slide = slide.as_ref();
-- 
2.43.0


From 4ed1d86951ec9667a8c73824e788ca17aa875763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 14/77] fix: base64 picture data with misplaced padding is
 rejected instead of decoded to other bytes

---
 src/generator/images.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 682548f..1f2e733 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -375,6 +375,18 @@ fn base64_decode(input: &str) -> Result<Vec<u8>, std::io::Error> {
             }
         }
         
+        // Padding only completes the last group, and a group holds at least one byte
+        let padded = &bytes[i..bytes.len().min(i + 4)];
+        let misplaced = pad > 2
+            || (pad > 0 && i + 4 < bytes.len())
+            || padded.iter().skip_while(|&&b| b != b'=').any(|&b| b != b'=');
+        if misplaced {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Invalid base64 padding",
+            ));
+        }
+
         output.push((buf[0] << 2) | (buf[1] >> 4));
         if pad < 2 {
             output.push((buf[1] << 4) | (buf[2] >> 2));
-- 
2.43.0


From 7313972d90a8a57a96d1d5804be39b0a21e35aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 15/77] fix: detecting the format of picture data shorter than
 six bytes does not panic

---
 src/generator/images.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1f2e733..70a2360 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -514,7 +514,7 @@ impl ImageBuilder {
                 "PNG"
             } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.starts_with(b"GIF89a") || data.starts_with(b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From c8bb88ceedad5270c4130671f3423c38ac659b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 16/77] fix: picture headers announcing huge or top-down sizes
 do not overflow

---
 src/generator/images.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 70a2360..61cad26 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -117,8 +117,8 @@ impl Image {
             .ok_or_else(|| "Failed to detect image dimensions (unsupported format)".to_string())?;
             
         // Convert pixels to EMU (assuming 96 DPI): 1 pixel = 9525 EMU
-        let w_emu = w * 9525;
-        let h_emu = h * 9525;
+        let w_emu = w.saturating_mul(9525);
+        let h_emu = h.saturating_mul(9525);
         
         Ok(Image {
             filename,
@@ -777,7 +777,8 @@ fn read_image_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
     // BMP: "BM", width/height as little-endian u32 at offset 18/22
     if data.starts_with(b"BM") && data.len() >= 26 {
         let w = u32::from_le_bytes([data[18], data[19], data[20], data[21]]);
-        let h = u32::from_le_bytes([data[22], data[23], data[24], data[25]]);
+        // A negative height marks a top-down bitmap
+        let h = i32::from_le_bytes([data[22], data[23], data[24], data[25]]).unsigned_abs();
         return Some((w, h, "BMP".into()));
     }
     // WebP: "RIFF....WEBP", VP8 chunk has dimensions
-- 
2.43.0


From b96a253c51de0ace1be1894ce4ec927b6adc3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 17/77] fix: merge regions with huge spans are rejected instead
 of overflowing

---
 src/generator/slide_content/table_merge.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 2719d41..234cfcc 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -18,6 +18,9 @@ impl MergeRegion {
         if row_span == 0 || col_span == 0 {
             return Err("Span must be at least 1".to_string());
         }
+        if row.checked_add(row_span - 1).is_none() || col.checked_add(col_span - 1).is_none() {
+            return Err("Merge region is out of range".to_string());
+        }
         Ok(Self { row, col, row_span, col_span })
     }
 
-- 
2.43.0


From 53fb23f22bd672e764956d7db91430aeae7ffc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 18/77] fix: a table cell covered in both directions carries
 both merge marks

---
 src/generator/table/format.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index ccadbd4..8ed562f 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -33,16 +33,16 @@ impl TableCell {
 
 /// Merge attributes for `<a:tc>` from cell state.
 pub fn merge_attrs_from_cell(cell: &TableCell) -> String {
+    let col_span = cell.grid_span.unwrap_or(1) as usize;
+    let row_span = cell.row_span.unwrap_or(1) as usize;
+    let mut attrs = CellMergeState::Anchor { row_span, col_span }.to_xml_attrs();
     if cell.h_merge {
-        return CellMergeState::HMerge.to_xml_attrs();
+        attrs.push_str(&CellMergeState::HMerge.to_xml_attrs());
     }
     if cell.v_merge {
-        return CellMergeState::VMerge.to_xml_attrs();
+        attrs.push_str(&CellMergeState::VMerge.to_xml_attrs());
     }
-
-    let col_span = cell.grid_span.unwrap_or(1) as usize;
-    let row_span = cell.row_span.unwrap_or(1) as usize;
-    CellMergeState::Anchor { row_span, col_span }.to_xml_attrs()
+    attrs
 }
 
 /// Generate `<a:rPr>` for a table cell text run.
-- 
2.43.0


From de24a226c282587aa5fd01214b2a193dab7cbed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 19/77] fix: sections of equal name get ids of their own and
 huge ranges do not overflow

---
 src/generator/slide_content/sections.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 8e2bf3c..3d8e784 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -28,13 +28,13 @@ impl SlideSection {
         if self.slide_count == 0 {
             self.first_slide
         } else {
-            self.first_slide + self.slide_count - 1
+            self.first_slide.saturating_add(self.slide_count - 1)
         }
     }
 
     /// Check if a slide index belongs to this section
     pub fn contains_slide(&self, slide_index: usize) -> bool {
-        slide_index >= self.first_slide && slide_index < self.first_slide + self.slide_count
+        slide_index >= self.first_slide && slide_index - self.first_slide < self.slide_count
     }
 }
 
@@ -127,18 +127,25 @@ impl SectionManager {
             r#"<p:extLst><p:ext uri="{521415D9-36F7-43E2-AB2F-B90AF26B5E84}"><p14:sectionLst xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main">"#,
         );
 
+        let mut ids: Vec<String> = Vec::with_capacity(self.sections.len());
         for section in &self.sections {
+            // Sections may share a name, but each needs an id of its own
+            let mut id = generate_section_id(&section.name);
+            let mut salt = 1;
+            while ids.contains(&id) {
+                salt += 1;
+                id = generate_section_id(&format!("{}#{}", section.name, salt));
+            }
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
                 escape_xml(&section.name),
-                generate_section_id(&section.name),
+                id,
             ));
+            ids.push(id);
             xml.push_str("<p14:sldIdLst>");
-            for i in 0..section.slide_count {
-                let slide_id = 256 + section.first_slide + i;
-                if section.first_slide + i < total_slides {
-                    xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
-                }
+            let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
+            for slide in section.first_slide..end {
+                xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, 256 + slide));
             }
             xml.push_str("</p14:sldIdLst>");
             xml.push_str("</p14:section>");
@@ -154,7 +161,7 @@ fn sections_overlap(a: &SlideSection, b: &SlideSection) -> bool {
     if a.slide_count == 0 || b.slide_count == 0 {
         return false;
     }
-    a.first_slide < b.first_slide + b.slide_count && b.first_slide < a.first_slide + a.slide_count
+    a.first_slide <= b.last_slide() && b.first_slide <= a.last_slide()
 }
 
 /// Generate a deterministic GUID-like ID from a section name
-- 
2.43.0


From 01384b67bcab066b88890691bfe130d4b872228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:42 +0000
Subject: [PATCH 20/77] fix: an automatically numbered comment never reuses an
 index given explicitly

---
 src/generator/slide_content/comments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index fb7b52f..ca29e60 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -180,7 +180,7 @@ impl SlideComments {
 
     /// Add a comment with auto-incrementing index
     pub fn add_comment(&mut self, author_id: u32, text: &str, x: u32, y: u32) {
-        let idx = self.comments.len() as u32 + 1;
+        let idx = self.comments.iter().map(|c| c.index).max().unwrap_or(0).saturating_add(1);
         self.comments.push(
             Comment::new(author_id, text)
                 .position(x, y)
-- 
2.43.0


From fcfe50f298696c0250951f16e2b9d555fba2426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 21/77] fix: relationship types are recognised exactly, so
 other types survive reading and writing

---
 src/parts/relationships.rs | 40 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 9e16997..870992d 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -40,26 +40,24 @@ impl RelationshipType {
 
     /// Parse from URI string
     pub fn from_uri(uri: &str) -> Self {
-        if uri.contains("/slide") && !uri.contains("Layout") && !uri.contains("Master") {
-            RelationshipType::Slide
-        } else if uri.contains("/slideLayout") {
-            RelationshipType::SlideLayout
-        } else if uri.contains("/slideMaster") {
-            RelationshipType::SlideMaster
-        } else if uri.contains("/theme") {
-            RelationshipType::Theme
-        } else if uri.contains("/image") {
-            RelationshipType::Image
-        } else if uri.contains("/chart") {
-            RelationshipType::Chart
-        } else if uri.contains("/officeDocument") {
-            RelationshipType::OfficeDocument
-        } else if uri.contains("core-properties") {
-            RelationshipType::CoreProperties
-        } else if uri.contains("extended-properties") {
-            RelationshipType::ExtendedProperties
-        } else {
-            RelationshipType::Custom(uri.to_string())
+        // Namespaces of the transitional and strict relationship types
+        const PREFIXES: [&str; 3] = [
+            "http://schemas.openxmlformats.org/officeDocument/2006/relationships/",
+            "http://purl.oclc.org/ooxml/officeDocument/relationships/",
+            "http://schemas.openxmlformats.org/package/2006/relationships/metadata/",
+        ];
+        let kind = PREFIXES.iter().find_map(|prefix| uri.strip_prefix(prefix));
+        match kind {
+            Some("slide") => RelationshipType::Slide,
+            Some("slideLayout") => RelationshipType::SlideLayout,
+            Some("slideMaster") => RelationshipType::SlideMaster,
+            Some("theme") => RelationshipType::Theme,
+            Some("image") => RelationshipType::Image,
+            Some("chart") => RelationshipType::Chart,
+            Some("officeDocument") => RelationshipType::OfficeDocument,
+            Some("core-properties") => RelationshipType::CoreProperties,
+            Some("extended-properties") => RelationshipType::ExtendedProperties,
+            _ => RelationshipType::Custom(uri.to_string()),
         }
     }
 }
@@ -87,7 +85,7 @@ impl Relationship {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
             escape_xml(&self.id),
-            self.rel_type.uri(),
+            escape_xml(self.rel_type.uri()),
             escape_xml(&self.target)
         )
     }
-- 
2.43.0


From 7d5710e7d4fdfcbc1fa61ccca0c3340e27e98ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 22/77] fix: relationship and content-type tables keep one
 entry per id, extension and part name

---
 src/parts/content_types.rs | 15 +++++++++++----
 src/parts/relationships.rs | 17 +++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 1be437f..d1f5615 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -72,14 +72,21 @@ impl ContentTypesPart {
 
     /// Add a default type
     pub fn add_default(&mut self, extension: impl Into<String>, content_type: impl Into<String>) {
-        self.defaults
-            .push(DefaultType::new(extension, content_type));
+        let entry = DefaultType::new(extension, content_type);
+        // An extension has one default; part names and extensions ignore ASCII case
+        match self.defaults.iter_mut().find(|d| d.extension.eq_ignore_ascii_case(&entry.extension)) {
+            Some(existing) => *existing = entry,
+            None => self.defaults.push(entry),
+        }
     }
 
     /// Add an override type
     pub fn add_override(&mut self, part_name: impl Into<String>, content_type: impl Into<String>) {
-        self.overrides
-            .push(OverrideType::new(part_name, content_type));
+        let entry = OverrideType::new(part_name, content_type);
+        match self.overrides.iter_mut().find(|o| o.part_name.eq_ignore_ascii_case(&entry.part_name)) {
+            Some(existing) => *existing = entry,
+            None => self.overrides.push(entry),
+        }
     }
 
     /// Add presentation part
diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 870992d..599ce2f 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -98,12 +98,18 @@ impl ToXml for Relationship {
 }
 
 /// Collection of relationships
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Relationships {
     relationships: Vec<Relationship>,
     next_id: u32,
 }
 
+impl Default for Relationships {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl Relationships {
     /// Create new empty relationships
     pub fn new() -> Self {
@@ -124,11 +130,14 @@ impl Relationships {
 
     /// Add a relationship with specific ID
     pub fn add_with_id(&mut self, id: &str, rel_type: RelationshipType, target: &str) {
-        self.relationships
-            .push(Relationship::new(id, rel_type, target));
+        let relationship = Relationship::new(id, rel_type, target);
+        match self.relationships.iter_mut().find(|r| r.id == id) {
+            Some(existing) => *existing = relationship,
+            None => self.relationships.push(relationship),
+        }
         // Update next_id if needed
         if let Some(num) = id.strip_prefix("rId").and_then(|s| s.parse::<u32>().ok())
-            && num >= self.next_id {
+            && num >= self.next_id && num < u32::MAX {
                 self.next_id = num + 1;
             }
     }
-- 
2.43.0


From 7387a962d7477b69263fef03024b254edb163a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 23/77] fix: reading a content-type table returns its entries

---
 src/parts/content_types.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index d1f5615..a97156d 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Default content type mapping (by extension)
 #[derive(Debug, Clone)]
@@ -222,9 +223,27 @@ impl Part for ContentTypesPart {
         Ok(self.generate_xml())
     }
 
-    fn from_xml(_xml: &str) -> Result<Self, PptxError> {
-        // TODO: Parse XML
-        Ok(ContentTypesPart::new())
+    fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = ContentTypesPart {
+            defaults: vec![],
+            overrides: vec![],
+        };
+        for element in root.find_all("Default") {
+            if let (Some(extension), Some(content_type)) =
+                (element.attr("Extension"), element.attr("ContentType"))
+            {
+                part.add_default(extension, content_type);
+            }
+        }
+        for element in root.find_all("Override") {
+            if let (Some(part_name), Some(content_type)) =
+                (element.attr("PartName"), element.attr("ContentType"))
+            {
+                part.add_override(part_name, content_type);
+            }
+        }
+        Ok(part)
     }
 }
 
-- 
2.43.0


From f0c22ee540b21bddd7702c8c2682e537920a3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 24/77] fix: external relationships stay external when a
 relationship table is read and written

---
 src/parts/relationships.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 599ce2f..fb54fcf 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -68,6 +68,8 @@ pub struct Relationship {
     pub id: String,
     pub rel_type: RelationshipType,
     pub target: String,
+    /// Whether the target lies outside the package (TargetMode="External")
+    pub external: bool,
 }
 
 impl Relationship {
@@ -77,16 +79,18 @@ impl Relationship {
             id: id.to_string(),
             rel_type,
             target: target.to_string(),
+            external: false,
         }
     }
 
     /// Generate XML for this relationship
     pub fn to_xml(&self) -> String {
         format!(
-            r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
+            r#"<Relationship Id="{}" Type="{}" Target="{}"{}/>"#,
             escape_xml(&self.id),
             escape_xml(self.rel_type.uri()),
-            escape_xml(&self.target)
+            escape_xml(&self.target),
+            if self.external { r#" TargetMode="External""# } else { "" }
         )
     }
 }
@@ -130,7 +134,11 @@ impl Relationships {
 
     /// Add a relationship with specific ID
     pub fn add_with_id(&mut self, id: &str, rel_type: RelationshipType, target: &str) {
-        let relationship = Relationship::new(id, rel_type, target);
+        self.insert(Relationship::new(id, rel_type, target));
+    }
+
+    fn insert(&mut self, relationship: Relationship) {
+        let id = relationship.id.clone();
         match self.relationships.iter_mut().find(|r| r.id == id) {
             Some(existing) => *existing = relationship,
             None => self.relationships.push(relationship),
@@ -205,7 +213,10 @@ impl Relationships {
                 rel_elem.attr("Type"),
                 rel_elem.attr("Target"),
             ) {
-                rels.add_with_id(id, RelationshipType::from_uri(rel_type), target);
+                let mut relationship =
+                    Relationship::new(id, RelationshipType::from_uri(rel_type), target);
+                relationship.external = rel_elem.attr("TargetMode") == Some("External");
+                rels.insert(relationship);
             }
         }
 
-- 
2.43.0


From e88e6b8a023b6f8e1fc761f66996da1b2a853fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 25/77] fix: merge regions at the end of the index range do not
 overflow

---
 src/generator/slide_content/table_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 234cfcc..c11e9c8 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -26,12 +26,12 @@ impl MergeRegion {
 
     /// Last row index (inclusive)
     pub fn last_row(&self) -> usize {
-        self.row + self.row_span - 1
+        self.row + (self.row_span - 1)
     }
 
     /// Last column index (inclusive)
     pub fn last_col(&self) -> usize {
-        self.col + self.col_span - 1
+        self.col + (self.col_span - 1)
     }
 
     /// Check if a cell (r, c) is inside this merge region
-- 
2.43.0


From 4bf89a0f17ff37e89c22afb909b0b0b2651a9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 26/77] fix: underlined slide content is written underlined

---
 src/generator/slide_xml/layouts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..1feb0fd 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -242,7 +242,7 @@ pub fn create_title_and_big_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
@@ -325,7 +325,7 @@ pub fn create_two_column_slide(
         content_size,
         content.content_bold,
         content.content_italic,
-        false,
+        content.content_underline,
         content.content_color.as_deref(),
     );
 
@@ -504,7 +504,7 @@ pub fn create_title_and_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
-- 
2.43.0


From 3c25680f4c7ec0b899ba718d3775e8da156847de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 27/77] fix: extreme levels, sizes and angles do not overflow

---
 src/generator/gradients.rs            |  2 +-
 src/generator/layouts/common.rs       |  3 ++-
 src/generator/shapes.rs               |  2 +-
 src/generator/shapes_xml.rs           |  2 +-
 src/generator/slide_content/bullet.rs |  4 ++++
 src/generator/slide_content/mod.rs    |  2 +-
 src/generator/slide_xml/layouts.rs    | 29 ++++++++++++++-------------
 src/generator/table/builder.rs        |  4 ++--
 src/generator/text/format.rs          |  2 +-
 src/generator/text/run.rs             |  2 +-
 src/parts/table.rs                    |  2 +-
 11 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..a41c4de 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -50,7 +50,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,
             GradientDirection::DiagonalDown => 2700000,
             GradientDirection::DiagonalUp => 18900000,
-            GradientDirection::Custom(deg) => deg * 60000,
+            GradientDirection::Custom(deg) => (deg % 360) * 60000,
         }
     }
 }
diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 7978297..7a81d67 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -4,7 +4,7 @@ use crate::core::XmlWriter;
 use crate::generator::constants::{
     SLIDE_WIDTH, SLIDE_HEIGHT,
 };
-use crate::generator::slide_content::BulletStyle;
+use crate::generator::slide_content::{bullet::MAX_BULLET_LEVEL, BulletStyle};
 
 /// XML declaration and namespaces
 pub const XML_DECL: &str = r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>"#;
@@ -262,6 +262,7 @@ impl SlideXmlBuilder {
     
     /// Add bullet paragraph with specific style
     pub fn add_bullet_with_style(mut self, text: &str, props: &str, level: u32, style: BulletStyle) -> Self {
+        let level = level.min(MAX_BULLET_LEVEL);
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200 + indent;
         let bullet_xml = style.to_xml();
diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..9be7534 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -447,7 +447,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,      // 90 * 60000
             GradientDirection::DiagonalDown => 2700000,  // 45 * 60000
             GradientDirection::DiagonalUp => 18900000,   // 315 * 60000
-            GradientDirection::Angle(deg) => deg * 60000,
+            GradientDirection::Angle(deg) => (deg % 360) * 60000,
         }
     }
 }
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..acd78ea 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -19,7 +19,7 @@ pub fn generate_shape_xml(shape: &Shape, shape_id: u32) -> String {
     let text_xml = generate_text_xml_with_autofit(&shape.text, shape.width, shape.height, fill_color);
     
     let rot_attr = if let Some(rot) = shape.rotation {
-        format!(r#" rot="{}""#, rot * 60000)
+        format!(r#" rot="{}""#, (rot % 360) * 60000)
     } else {
         String::new()
     };
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index c1a5c5a..658088f 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -2,6 +2,9 @@
 
 use crate::core::{escape_xml, ToXml};
 
+/// Deepest paragraph level a presentation can express
+pub const MAX_BULLET_LEVEL: u32 = 8;
+
 /// Bullet style for lists
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
 pub enum BulletStyle {
@@ -43,6 +46,7 @@ impl BulletStyle {
     
     /// Get the OOXML indent level XML
     pub fn indent_xml(&self, level: u32) -> String {
+        let level = level.min(MAX_BULLET_LEVEL);
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200;
         format!(r#"indent="-{}" marL="{}""#, indent, margin_left + indent)
diff --git a/src/generator/slide_content/mod.rs b/src/generator/slide_content/mod.rs
index 4081347..af02d1e 100644
--- a/src/generator/slide_content/mod.rs
+++ b/src/generator/slide_content/mod.rs
@@ -8,7 +8,7 @@
 //! - `SlideContent` - Complete slide content builder
 //! - `CodeBlock` - Code block with syntax highlighting
 
-mod bullet;
+pub(crate) mod bullet;
 mod layout;
 mod code_block;
 mod content;
diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 1feb0fd..09d441c 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -1,6 +1,6 @@
 //! Slide layout implementations
 
-use crate::generator::slide_content::{SlideContent, BulletPoint, BulletTextFormat};
+use crate::generator::slide_content::{SlideContent, BulletPoint, BulletTextFormat, bullet::MAX_BULLET_LEVEL};
 use crate::core::escape_xml;
 use crate::generator::slide::formatting::generate_text_props;
 use super::common::{SLIDE_HEADER, SLIDE_FOOTER, generate_title_shape};
@@ -14,7 +14,7 @@ fn generate_bullet_text_props(
 ) -> String {
     if let Some(fmt) = bullet_format {
         let props = ExtendedTextProps {
-            size: fmt.font_size.map(|s| s * 100).unwrap_or(default_props.size),
+            size: fmt.font_size.map(|s| s.saturating_mul(100)).unwrap_or(default_props.size),
             bold: fmt.bold || default_props.bold,
             italic: fmt.italic || default_props.italic,
             underline: fmt.underline || default_props.underline,
@@ -36,8 +36,9 @@ fn generate_bullet_paragraph_from_point(
     bullet: &BulletPoint,
     default_props: &ExtendedTextProps,
 ) -> String {
-    let indent = 457200 + (bullet.level * 457200);
-    let margin_left = bullet.level * 457200 + indent;
+    let level = bullet.level.min(MAX_BULLET_LEVEL);
+    let indent = 457200 + (level * 457200);
+    let margin_left = level * 457200 + indent;
     let bullet_xml = bullet.style.to_xml();
     let text_props = generate_bullet_text_props(default_props, bullet.format.as_ref());
     
@@ -52,7 +53,7 @@ fn generate_bullet_paragraph_from_point(
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-        bullet.level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
+        level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
     )
 }
 
@@ -74,7 +75,7 @@ pub fn create_title_only_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         content.title_bold,
@@ -106,7 +107,7 @@ pub fn create_section_header_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(48) * 100;
+    let title_size = content.title_size.unwrap_or(48).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         true,
@@ -138,7 +139,7 @@ pub fn create_centered_title_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(54) * 100;
+    let title_size = content.title_size.unwrap_or(54).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         content.title_bold,
@@ -170,8 +171,8 @@ pub fn create_title_and_big_content_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(28) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -276,8 +277,8 @@ pub fn create_two_column_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(24) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(24).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -428,8 +429,8 @@ pub fn create_title_and_content_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(28) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
diff --git a/src/generator/table/builder.rs b/src/generator/table/builder.rs
index cefcb27..05203ce 100644
--- a/src/generator/table/builder.rs
+++ b/src/generator/table/builder.rs
@@ -43,7 +43,7 @@ impl Table {
 
     /// Calculate total table width
     pub fn width(&self) -> u32 {
-        self.column_widths.iter().sum()
+        self.column_widths.iter().fold(0, |sum, width| sum.saturating_add(*width))
     }
 
     /// Calculate total table height based on row heights
@@ -51,7 +51,7 @@ impl Table {
         self.rows
             .iter()
             .map(|row| row.height.unwrap_or(400000))
-            .sum()
+            .fold(0, u32::saturating_add)
     }
 
     /// Get the number of rows
diff --git a/src/generator/text/format.rs b/src/generator/text/format.rs
index 28a78bb..2c8ebec 100644
--- a/src/generator/text/format.rs
+++ b/src/generator/text/format.rs
@@ -110,7 +110,7 @@ impl TextFormat {
         }
 
         if let Some(size) = self.font_size {
-            attrs.push_str(&format!(" sz=\"{}\"", size * 100));
+            attrs.push_str(&format!(" sz=\"{}\"", size.saturating_mul(100)));
         }
 
         attrs
diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index 980c59b..f0a320e 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -64,7 +64,7 @@ impl Run {
 
     /// Generate XML for this run
     pub fn to_xml(&self) -> String {
-        let size = self.format.font_size.unwrap_or(18) * 100;
+        let size = self.format.font_size.unwrap_or(18).saturating_mul(100);
         let bold = if self.format.bold { "1" } else { "0" };
         let italic = if self.format.italic { "1" } else { "0" };
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
diff --git a/src/parts/table.rs b/src/parts/table.rs
index 6ca8e33..5b2a26b 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -396,7 +396,7 @@ impl TableCellPart {
             rpr_attrs.push_str(r#" strike="sngStrike""#);
         }
         if let Some(size) = self.font_size {
-            rpr_attrs.push_str(&format!(r#" sz="{}""#, size * 100));
+            rpr_attrs.push_str(&format!(r#" sz="{}""#, size.saturating_mul(100)));
         }
 
         // Text color
-- 
2.43.0


From c9120d445dd8715f9fa74efdeebcffceb38951e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 28/77] fix: picture crops are rounded, not truncated, to the
 nearest step

---
 src/generator/image_effects.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generator/image_effects.rs b/src/generator/image_effects.rs
index d55e624..74c8c65 100644
--- a/src/generator/image_effects.rs
+++ b/src/generator/image_effects.rs
@@ -42,10 +42,10 @@ pub fn generate_effect_xml(effect: &ImageEffect) -> String {
 pub fn generate_blip_fill_xml(rel_id: &str, crop: Option<&Crop>) -> String {
     match crop {
         Some(crop) => {
-            let l = (crop.left * 100_000.0) as u32;
-            let t = (crop.top * 100_000.0) as u32;
-            let r = (crop.right * 100_000.0) as u32;
-            let b = (crop.bottom * 100_000.0) as u32;
+            let l = (crop.left * 100_000.0).round() as u32;
+            let t = (crop.top * 100_000.0).round() as u32;
+            let r = (crop.right * 100_000.0).round() as u32;
+            let b = (crop.bottom * 100_000.0).round() as u32;
             let mut attrs = String::new();
             for (name, value) in [("l", l), ("t", t), ("r", r), ("b", b)] {
                 if value > 0 {
-- 
2.43.0


From 93509cf45bfc151f3f60e1fa6974ec5256a3d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 29/77] fix: a table is written on slides of every layout

---
 src/generator/slide_xml/content.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 19535ad..b9e5ecd 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use crate::generator::shapes_xml::generate_shape_xml;
-use crate::generator::slide_content::SlideContent;
+use crate::generator::slide_content::{SlideContent, SlideLayout};
 
 /// Hands out non-visual drawing ids that are unique on the slide. Ids fixed by the
 /// caller and the ids of title and body placeholders (1-9) are never given out again.
@@ -45,6 +45,14 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // The title-and-content layout places the table itself; the others have no slot for it
+    if let Some(table) = &content.table
+        && content.layout != SlideLayout::TitleAndContent
+    {
+        xml.push('\n');
+        xml.push_str(&crate::generator::table::generate_table_xml(table, 5));
+    }
+
     let mut ids = ShapeIds::new(content);
 
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
-- 
2.43.0


From 0ebc2a8bbe5cdf2b53038030ef08cb413a55d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:24 +0000
Subject: [PATCH 30/77] fix: centred and middle-aligned table cells are written
 as such

---
 src/generator/table/format.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index 8ed562f..e777316 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -1,6 +1,6 @@
 //! Shared table cell formatting and XML generation
 
-use super::cell::{CellAlign, CellVAlign, TableCell};
+use super::cell::TableCell;
 use crate::core::escape_xml;
 use crate::generator::slide_content::table_merge::CellMergeState;
 use crate::generator::text::{color_to_xml, TextFormat};
@@ -71,11 +71,7 @@ pub fn run_properties_xml(cell: &TableCell) -> String {
 
 /// Paragraph properties element for `<a:p>`.
 pub fn paragraph_props_xml(cell: &TableCell) -> String {
-    if cell.align == CellAlign::Center {
-        String::new()
-    } else {
-        format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
-    }
+    format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
 }
 
 /// Body properties for `<a:bodyPr>` inside table cells.
@@ -86,19 +82,13 @@ pub fn body_props_xml(_cell: &TableCell) -> String {
 
 /// Cell properties (`<a:tcPr>`) including background and vertical alignment.
 pub fn tc_properties_xml(cell: &TableCell) -> String {
-    let anchor = if cell.valign == CellVAlign::Middle {
-        String::new()
-    } else {
-        format!(r#" anchor="{}""#, cell.valign.as_str())
-    };
+    let anchor = format!(r#" anchor="{}""#, cell.valign.as_str());
 
     if let Some(ref background) = cell.background_color {
         format!(
             r#"<a:tcPr{anchor}>{}</a:tcPr>"#,
             color_to_xml(background)
         )
-    } else if anchor.is_empty() {
-        "<a:tcPr/>".to_string()
     } else {
         format!(r#"<a:tcPr{anchor}/>"#)
     }
-- 
2.43.0


From e53430eceb72698e8dc661f161dd9dfdad141849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 31/77] fix: white-space-only text is read

---
 src/oxml/xmlchemy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..a4e5739 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -177,7 +177,8 @@ impl XmlParser {
                         }
                     }
                 }
-                Ok(XmlEvent::Characters(text)) => {
+                // Text of white space alone is text too (e.g. a run between two words)
+                Ok(XmlEvent::Characters(text)) | Ok(XmlEvent::Whitespace(text)) => {
                     if let Some(current) = stack.last_mut() {
                         current.text.push_str(&text);
                     }
-- 
2.43.0


From f4ac57c7b47ba1878f9638a31c76a34f58a31953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 32/77] fix: slides are read in the order of the presentation's
 slide list

---
 src/oxml/presentation.rs | 156 ++++++++++++++++++++++++++++-----------
 1 file changed, 111 insertions(+), 45 deletions(-)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..383607c 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -4,6 +4,7 @@
 
 use super::slide::{ParsedSlide, SlideParser};
 use super::xmlchemy::XmlParser;
+use crate::core::package_validation::rels::resolve_rel_target;
 use crate::exc::{messages, PptxError};
 use crate::opc::Package;
 
@@ -152,55 +153,120 @@ impl PresentationReader {
     }
 
     fn parse_presentation_xml(&mut self) -> Result<(), PptxError> {
-        // First, find slide references from presentation.xml.rels
-        if let Some(rels_xml) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_xml);
-            if let Ok(root) = XmlParser::parse_str(&xml_str) {
-                let mut slide_rels: Vec<(String, String)> = Vec::new();
-
-                for rel in root.find_all("Relationship") {
-                    let rel_type = rel.attr("Type").unwrap_or("");
-                    if rel_type.contains("/slide")
-                        && !rel_type.contains("Layout")
-                        && !rel_type.contains("Master")
-                        && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                                stripped.to_string()
-                            } else {
-                                format!("ppt/{target}")
-                            };
-                            slide_rels.push((id.to_string(), full_path));
-                        }
-                }
-
-                // Sort by relationship ID to maintain slide order
-                slide_rels.sort_by(|a, b| {
-                    let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    num_a.cmp(&num_b)
-                });
-
-                self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
-            }
-        }
+        self.slide_paths = slide_parts(&self.package)
+            .into_iter()
+            .map(|(_, path)| path)
+            .collect();
+        self.info.slide_count = self.slide_paths.len();
+        Ok(())
+    }
+}
+
+/// A relationship of a part
+#[derive(Debug, Clone)]
+pub(crate) struct PartRelationship {
+    pub id: String,
+    pub rel_type: String,
+    pub target: String,
+    /// Name of the part the target refers to (empty for external targets)
+    pub part: String,
+}
+
+impl PartRelationship {
+    /// Whether the relationship is of the given kind, e.g. "slide"
+    pub fn is(&self, kind: &str) -> bool {
+        self.rel_type.rsplit('/').next() == Some(kind)
+    }
+}
 
-        // Fallback: scan for slide files
-        if self.slide_paths.is_empty() {
-            let paths = self.package.part_paths();
-            let mut slides: Vec<String> = paths
-                .into_iter()
-                .filter(|p| {
-                    p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-                })
-                .map(|s| s.to_string())
-                .collect();
-            slides.sort();
-            self.slide_paths = slides;
+/// Name of the relationship part of a part
+pub(crate) fn rels_part_name(part: &str) -> String {
+    match part.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{part}.rels"),
+    }
+}
+
+/// Relationships of a part (of the package itself if the name is empty), in file order
+pub(crate) fn part_relationships(package: &Package, part: &str) -> Vec<PartRelationship> {
+    let dir = part.rsplit_once('/').map_or("", |(dir, _)| dir);
+    let Some(xml) = package.get_part_string(&rels_part_name(part)) else {
+        return Vec::new();
+    };
+    let Ok(root) = XmlParser::parse_str(&xml) else {
+        return Vec::new();
+    };
+    root.find_all("Relationship")
+        .into_iter()
+        .filter_map(|rel| {
+            let target = rel.attr("Target")?.to_string();
+            let external = rel.attr("TargetMode") == Some("External");
+            Some(PartRelationship {
+                id: rel.attr("Id")?.to_string(),
+                rel_type: rel.attr("Type").unwrap_or("").to_string(),
+                part: if external { String::new() } else { resolve_rel_target(dir, &target) },
+                target,
+            })
+        })
+        .collect()
+}
+
+/// Name of the main presentation part
+pub(crate) fn presentation_part(package: &Package) -> String {
+    part_relationships(package, "")
+        .into_iter()
+        .find(|rel| rel.is("officeDocument") && package.has_part(&rel.part))
+        .map_or_else(|| "ppt/presentation.xml".to_string(), |rel| rel.part)
+}
+
+/// Relationship ids and part names of the slides, in the order of the presentation's
+/// slide list. If there is no readable slide list, the order of the slide
+/// relationships or else of the numbers in the part names is used.
+pub(crate) fn slide_parts(package: &Package) -> Vec<(String, String)> {
+    let presentation = presentation_part(package);
+    let mut slides: Vec<(String, String)> = part_relationships(package, &presentation)
+        .into_iter()
+        .filter(|rel| rel.is("slide") && !rel.part.is_empty())
+        .map(|rel| (rel.id, rel.part))
+        .collect();
+
+    let list = package
+        .get_part_string(&presentation)
+        .and_then(|xml| XmlParser::parse_str(&xml).ok())
+        .and_then(|root| root.find("sldIdLst").cloned());
+    if let Some(list) = list {
+        let listed: Vec<(String, String)> = list
+            .find_all("sldId")
+            .into_iter()
+            .filter_map(|entry| {
+                let (_, id) = entry.attributes.iter().find(|(name, _)| name.ends_with(":id"))?;
+                slides.iter().find(|(slide_id, _)| slide_id == id).cloned()
+            })
+            .collect();
+        if !listed.is_empty() || slides.is_empty() {
+            return listed;
         }
+    }
 
-        self.info.slide_count = self.slide_paths.len();
-        Ok(())
+    if slides.is_empty() {
+        slides = package
+            .part_paths()
+            .into_iter()
+            .filter(|p| {
+                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
+            })
+            .map(|path| (String::new(), path.to_string()))
+            .collect();
+        slides.sort_by_key(|(_, path)| (trailing_number(path.trim_end_matches(".xml")), path.clone()));
+    } else {
+        slides.sort_by_key(|(id, _)| trailing_number(id));
     }
+    slides
+}
+
+fn trailing_number(name: &str) -> u64 {
+    let digits = name.trim_end_matches(|c: char| c.is_ascii_digit()).len();
+    name[digits..].parse().unwrap_or(0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 88d2891947a9f95f1396db52b4d5481642bf7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 33/77] fix: all text of a slide is read: cell paragraphs and
 runs, breaks, fields and groups; subtitles are not titles

---
 src/oxml/slide.rs | 48 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b139c0c..ddddd64 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -161,6 +161,11 @@ impl ParsedSlide {
                 texts.push(text);
             }
         }
+        for cell in self.tables.iter().flat_map(|table| table.rows.iter().flatten()) {
+            if !cell.text.is_empty() {
+                texts.push(cell.text.clone());
+            }
+        }
         texts
     }
 }
@@ -183,12 +188,14 @@ impl SlideParser {
         // Find shape tree (spTree)
         if let Some(sp_tree) = root.find_descendant("spTree") {
             // Parse shapes
-            for sp in sp_tree.find_all("sp") {
+            for sp in Self::collect_grouped(sp_tree, "sp") {
                 if let Some(mut shape) = Self::parse_shape(sp) {
                     // Check if this is title or body
                     if Self::is_title_shape(sp) {
                         shape.is_title = true;
-                        slide.title = Some(shape.text());
+                        if slide.title.is_none() {
+                            slide.title = Some(shape.text());
+                        }
                     } else if Self::is_body_shape(sp) {
                         shape.is_body = true;
                         for para in &shape.paragraphs {
@@ -203,7 +210,7 @@ impl SlideParser {
             }
 
             // Parse graphic frames (tables, charts)
-            for gf in sp_tree.find_all("graphicFrame") {
+            for gf in Self::collect_grouped(sp_tree, "graphicFrame") {
                 if let Some(table) = Self::parse_table_from_graphic_frame(gf) {
                     slide.tables.push(table);
                 }
@@ -213,6 +220,19 @@ impl SlideParser {
         Ok(slide)
     }
 
+    /// Elements of a kind in a shape tree, including those inside groups, in order
+    fn collect_grouped<'a>(tree: &'a XmlElement, kind: &str) -> Vec<&'a XmlElement> {
+        let mut found = Vec::new();
+        for child in &tree.children {
+            if child.is(kind) {
+                found.push(child);
+            } else if child.is("grpSp") {
+                found.extend(Self::collect_grouped(child, kind));
+            }
+        }
+        found
+    }
+
     fn parse_shape(sp: &XmlElement) -> Option<ParsedShape> {
         // Get shape name from nvSpPr/cNvPr
         let name = sp
@@ -259,8 +279,12 @@ impl SlideParser {
             }
 
             // Parse text runs
-            for r in p.find_all("r") {
-                let text = r.find("t").map(|t| t.text_content()).unwrap_or_default();
+            for r in &p.children {
+                let text = match r.local_name.as_str() {
+                    "br" => "\n".to_string(),
+                    "r" | "fld" => r.find("t").map(|t| t.text_content()).unwrap_or_default(),
+                    _ => continue,
+                };
                 if text.is_empty() {
                     continue;
                 }
@@ -303,9 +327,7 @@ impl SlideParser {
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
                 let ph_type = ph.attr("type").unwrap_or("");
-                if ph_type == "title" || ph_type == "ctrTitle" {
-                    return true;
-                }
+                return ph_type == "title" || ph_type == "ctrTitle";
             }
         // Also check shape name for textbox-based titles
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
@@ -347,9 +369,13 @@ impl SlideParser {
             let mut row = Vec::new();
             for tc in tr.find_all("tc") {
                 let text = tc
-                    .find_descendant("t")
-                    .map(|t| t.text_content())
-                    .unwrap_or_default();
+                    .find("txBody")
+                    .map(Self::parse_text_body)
+                    .unwrap_or_default()
+                    .iter()
+                    .map(|p| p.text())
+                    .collect::<Vec<_>>()
+                    .join("\n");
 
                 let row_span = tc.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1);
                 let col_span = tc
-- 
2.43.0


From 3056e7bc020a3505e9d1edbcf265d187e04cf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 34/77] fix: the title placeholder is the title, not an earlier
 shape named like one

---
 src/oxml/slide.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index ddddd64..84bdec6 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -188,12 +188,15 @@ impl SlideParser {
         // Find shape tree (spTree)
         if let Some(sp_tree) = root.find_descendant("spTree") {
             // Parse shapes
+            let mut has_title_placeholder = false;
             for sp in Self::collect_grouped(sp_tree, "sp") {
                 if let Some(mut shape) = Self::parse_shape(sp) {
                     // Check if this is title or body
                     if Self::is_title_shape(sp) {
                         shape.is_title = true;
-                        if slide.title.is_none() {
+                        // A title placeholder takes precedence over shapes named like a title
+                        if slide.title.is_none() || (!has_title_placeholder && Self::placeholder_type(sp).is_some()) {
+                            has_title_placeholder = Self::placeholder_type(sp).is_some();
                             slide.title = Some(shape.text());
                         }
                     } else if Self::is_body_shape(sp) {
@@ -322,6 +325,11 @@ impl SlideParser {
         paragraphs
     }
 
+    fn placeholder_type(sp: &XmlElement) -> Option<&str> {
+        let placeholder = sp.find_descendant("nvPr")?.find("ph")?;
+        Some(placeholder.attr("type").unwrap_or(""))
+    }
+
     fn is_title_shape(sp: &XmlElement) -> bool {
         // Check placeholder type first
         if let Some(nv_pr) = sp.find_descendant("nvPr")
-- 
2.43.0


From 8ffae2dceb5978036194f32524bb66a545f89705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 35/77] fix: importing keeps the levels of bullets

---
 src/import/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/import/mod.rs b/src/import/mod.rs
index bb9e862..66eaa91 100644
--- a/src/import/mod.rs
+++ b/src/import/mod.rs
@@ -20,8 +20,14 @@ pub fn import_pptx(path: &str) -> Result<Presentation> {
         let mut content = SlideContent::new(parsed_slide.title.as_deref().unwrap_or(""));
         
         // Add body text as bullets
-        for text in parsed_slide.body_text {
-            content = content.add_bullet(&text);
+        for paragraph in parsed_slide.shapes.iter().filter(|shape| shape.is_body).flat_map(|shape| &shape.paragraphs) {
+            let text = paragraph.text();
+            if !text.is_empty() {
+                content = content.add_bullet(&text);
+                if let Some(bullet) = content.bullets.last_mut() {
+                    bullet.level = paragraph.level;
+                }
+            }
         }
         
         // Add shapes (skip title and body)
-- 
2.43.0


From 6be3f1f11216867a06923477b188a028bf0a6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 36/77] fix: edits keep slide order, ids, other slides and
 presentation-wide parts

The editor rebuilt the presentation, its relationships and the content
types from slide counts, and wrote slides without their pictures, charts,
notes and links. Edit the existing parts in place instead.
---
 src/oxml/editor.rs   | 871 ++++++++++++++++++++++++-------------------
 src/oxml/mod.rs      |   1 +
 src/oxml/xml_edit.rs | 168 +++++++++
 3 files changed, 652 insertions(+), 388 deletions(-)
 create mode 100644 src/oxml/xml_edit.rs

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..08f7e78 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -5,54 +5,72 @@
 //! - Update slide content
 //! - Remove slides
 //! - Modify presentation properties
+//!
+//! Edits touch only the slide list, the slide concerned and the parts it alone uses;
+//! all other parts of the package are left as they are.
 
+use super::presentation::{
+    part_relationships, presentation_part, rels_part_name, slide_parts, PartRelationship,
+};
 use super::slide::{ParsedSlide, SlideParser};
+use super::xml_edit::{element, elements, with_content, with_root_child, without};
 use crate::exc::{messages, PptxError};
-use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
-};
-use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
+use crate::generator::create_pptx_with_content;
+use crate::generator::slide_content::{SlideContent, SlideLayout};
 use crate::opc::Package;
+use std::collections::{HashMap, HashSet};
+use std::io::Cursor;
+
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const RELATIONSHIPS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
 
 /// Presentation editor for modifying PPTX files
 pub struct PresentationEditor {
     package: Package,
-    slide_count: usize,
+    /// Relationship ids and part names of the slides in order
+    slides: Vec<(String, String)>,
+}
+
+/// A part to be added to the package
+struct NewPart {
+    name: String,
+    data: Vec<u8>,
+    relationships: Option<String>,
+    content_type: Option<String>,
 }
 
 impl PresentationEditor {
     /// Open a PPTX file for editing
     pub fn open(path: &str) -> Result<Self, PptxError> {
-        let package = Package::open(path)?;
-        let slide_count = Self::count_slides(&package);
-
-        Ok(PresentationEditor {
-            package,
-            slide_count,
-        })
+        Ok(Self::edit(Package::open(path)?))
     }
 
     /// Create a new presentation for editing
     pub fn new() -> Self {
-        PresentationEditor {
-            package: Package::new(),
-            slide_count: 0,
-        }
+        let package = create_pptx_with_content("", vec![Self::blank_slide()])
+            .and_then(|data| Package::open_reader(Cursor::new(data)))
+            .unwrap_or_default();
+        let mut editor = Self::edit(package);
+        let _ = editor.remove_slide(0);
+        editor
+    }
+
+    fn edit(package: Package) -> Self {
+        let slides = slide_parts(&package);
+        PresentationEditor { package, slides }
     }
 
     /// Get number of slides
     pub fn slide_count(&self) -> usize {
-        self.slide_count
+        self.slides.len()
     }
 
     /// Get a parsed slide by index (0-based)
     pub fn get_slide(&self, index: usize) -> Result<ParsedSlide, PptxError> {
-        let slide_num = index + 1;
-        let path = format!("ppt/slides/slide{slide_num}.xml");
         let xml = self
-            .package
-            .get_part(&path)
+            .slides
+            .get(index)
+            .and_then(|(_, path)| self.package.get_part(path))
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?;
 
         let xml_str = String::from_utf8_lossy(xml);
@@ -61,211 +79,127 @@ impl PresentationEditor {
 
     /// Add a new slide at the end
     pub fn add_slide(&mut self, content: SlideContent) -> Result<usize, PptxError> {
-        let new_index = self.slide_count + 1;
-
-        // Generate slide XML
-        let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        // Add slide file
-        let slide_path = format!("ppt/slides/slide{new_index}.xml");
-        self.package.add_part(slide_path, slide_xml.into_bytes());
-
-        // Add slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{new_index}.xml.rels");
-        self.package
-            .add_part(rels_path, slide_rels_xml.into_bytes());
-
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
-        self.slide_count = new_index;
-        Ok(new_index - 1) // Return 0-based index
+        self.insert_slide(self.slide_count(), content)
     }
 
     /// Update slide content at index
     pub fn update_slide(&mut self, index: usize, content: SlideContent) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let slide_xml = create_slide_xml_with_content(slide_num, &content, &[], None);
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-
-        self.package.add_part(slide_path, slide_xml.into_bytes());
+        let path = self.slide_path(index)?;
+        let slides = self.slides.iter().map(|(_, path)| path.clone()).collect();
+        let parts = self.slide_content_parts(content, index, slides)?;
+
+        let used = self.reachable_parts();
+        self.package.remove_part(&rels_part_name(&path));
+        self.add_parts(parts)?;
+        self.remove_unused_parts(&used);
         Ok(())
     }
 
     /// Remove a slide by index
     pub fn remove_slide(&mut self, index: usize) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-
-        // Remove slide file
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        self.package.remove_part(&slide_path);
-
-        // Remove slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        self.package.remove_part(&rels_path);
-
-        // Renumber remaining slides
-        for i in (slide_num + 1)..=self.slide_count {
-            self.renumber_slide(i, i - 1)?;
+        let path = self.slide_path(index)?;
+        let mut entries = self.slide_entries()?;
+        let used = self.reachable_parts();
+        let rel_id = self.slides[index].0.clone();
+
+        let entry = entries.remove(index);
+        let slide_id = elements(&entry).first().and_then(|e| e.attr(&entry, "id"));
+        self.set_slide_entries(&entries);
+
+        // References to the slide elsewhere in the presentation part (custom shows, sections)
+        let presentation = presentation_part(&self.package);
+        self.edit_part(&presentation, |xml| {
+            let all = elements(xml);
+            let references = all.iter().filter(|e| {
+                (e.is("sld") && e.relationship_id(xml).as_ref() == Some(&rel_id))
+                    || (e.is("sldId")
+                        && e.relationship_id(xml).is_none()
+                        && e.attr(xml, "id") == slide_id)
+            });
+            without(xml, references.map(|e| e.range.clone()).collect())
+        });
+
+        // Relationships to the slide, with the links that use them
+        for part in used.iter().filter(|part| **part != path) {
+            let links: Vec<String> = part_relationships(&self.package, part)
+                .into_iter()
+                .filter(|rel| rel.part == path)
+                .map(|rel| rel.id)
+                .collect();
+            if links.is_empty() {
+                continue;
+            }
+            let refers = |id: Option<String>| id.is_some_and(|id| links.contains(&id));
+            if *part != presentation {
+                self.edit_part(part, |xml| {
+                    let all = elements(xml);
+                    let dead = all.iter().filter(|e| {
+                        e.name.contains("hlink") && refers(e.relationship_id(xml))
+                    });
+                    without(xml, dead.map(|e| e.range.clone()).collect())
+                });
+            }
+            self.edit_part(&rels_part_name(part), |xml| {
+                let all = elements(xml);
+                let dead = all.iter().filter(|e| refers(e.attr(xml, "Id")));
+                without(xml, dead.map(|e| e.range.clone()).collect())
+            });
         }
 
-        self.slide_count -= 1;
-
-        // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
+        self.remove_unused_parts(&used);
+        self.slides = slide_parts(&self.package);
         Ok(())
     }
 
     /// Duplicate an existing slide, inserting the copy immediately after the original.
     pub fn duplicate_slide(&mut self, index: usize) -> Result<usize, PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let new_index = index + 1;
-        let new_num = new_index + 1;
-
-        // Copy original slide content and relationships.
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-
-        let slide_data = self
-            .package
-            .get_part(&slide_path)
-            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
-            .to_vec();
-        let rels_data = self
-            .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
-
-        // Shift slides after the original to make room for the duplicate.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Insert duplicate at the newly vacated position.
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
-        self.package
-            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(new_index)
+        let path = self.slide_path(index)?;
+        let copy = self.free_part_name(&path, &HashSet::new());
+        let entries = self.slide_entries()?;
+
+        // Charts, notes, embedded files and the like are copied; layouts, media and
+        // other slides are shared.
+        let names = HashMap::from([(path.clone(), copy.clone())]);
+        let parts = self.copied_parts(&self.package, &path, names, |rel| {
+            let shared = ["slideLayout", "slide", "notesMaster", "image", "media", "video", "audio"];
+            let exists = self.package.has_part(&rel.part);
+            Ok((!exists || shared.iter().any(|kind| rel.is(kind))).then(|| rel.part.clone()))
+        })?;
+        self.add_parts(parts)?;
+        self.list_slide(index + 1, &copy, entries)?;
+        Ok(index + 1)
     }
 
     /// Insert a new slide at the specified index.
     pub fn insert_slide(&mut self, index: usize, content: SlideContent) -> Result<usize, PptxError> {
-        if index > self.slide_count {
+        if index > self.slide_count() {
             return Err(PptxError::NotFound(messages::slide_not_found(index)));
         }
 
-        let new_num = index + 1;
-
-        // Shift slides at and after the insertion point upward.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Generate and insert the new slide.
-        let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
-        self.package.add_part(
-            format!("ppt/slides/_rels/slide{new_num}.xml.rels"),
-            slide_rels_xml.into_bytes(),
-        );
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        let path = self.free_part_name("ppt/slides/slide1.xml", &HashSet::new());
+        let entries = self.slide_entries()?;
+        let mut slides: Vec<String> = self.slides.iter().map(|(_, path)| path.clone()).collect();
+        slides.insert(index, path.clone());
 
+        let parts = self.slide_content_parts(content, index, slides)?;
+        self.add_parts(parts)?;
+        self.list_slide(index, &path, entries)?;
         Ok(index)
     }
 
     /// Reorder a slide from one position to another.
     pub fn reorder_slide(&mut self, from_index: usize, to_index: usize) -> Result<(), PptxError> {
-        if from_index >= self.slide_count || to_index >= self.slide_count {
+        if from_index >= self.slide_count() || to_index >= self.slide_count() {
             return Err(PptxError::NotFound(messages::slide_not_found(
                 from_index.max(to_index),
             )));
         }
 
-        if from_index == to_index {
-            return Ok(());
-        }
-
-        let from_num = from_index + 1;
-        let to_num = to_index + 1;
-
-        // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
-
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
-
-        if from_index < to_index {
-            // Shift intermediate slides left.
-            for i in from_num..to_num {
-                self.renumber_slide(i + 1, i)?;
-            }
-        } else {
-            // Shift intermediate slides right.
-            for i in (to_num..from_num).rev() {
-                self.renumber_slide(i, i + 1)?;
-            }
-        }
-
-        // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
+        let mut entries = self.slide_entries()?;
+        let entry = entries.remove(from_index);
+        entries.insert(to_index, entry);
+        self.set_slide_entries(&entries);
+        self.slides = slide_parts(&self.package);
         Ok(())
     }
 
@@ -285,238 +219,399 @@ impl PresentationEditor {
         &mut self.package
     }
 
-    // Helper methods
-
-    fn count_slides(package: &Package) -> usize {
-        package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .count()
-    }
+    // Slide list
 
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
+    fn blank_slide() -> SlideContent {
+        SlideContent::new("").layout(SlideLayout::Blank)
     }
 
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
+    fn slide_path(&self, index: usize) -> Result<String, PptxError> {
+        self.slides
+            .get(index)
+            .filter(|(_, path)| self.package.has_part(path))
+            .map(|(_, path)| path.clone())
+            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))
     }
 
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
+    /// Apply an edit to the text of a part
+    fn edit_part(&mut self, part: &str, edit: impl FnOnce(&str) -> String) {
+        if let Some(xml) = self.package.get_part_string(part) {
+            let edited = edit(&xml);
+            if edited != xml {
+                self.package.add_part(part.to_string(), edited.into_bytes());
+            }
         }
-        Ok(())
     }
 
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
-
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
+    /// Markup of the entries of the slide list, in the order of the slides
+    fn slide_entries(&self) -> Result<Vec<String>, PptxError> {
+        let presentation = presentation_part(&self.package);
+        let xml = self
+            .package
+            .get_part_string(&presentation)
+            .filter(|_| self.package.has_part(&rels_part_name(&presentation)))
+            .ok_or_else(|| PptxError::NotFound(presentation))?;
+        let all = elements(&xml);
+        let entries: Vec<String> = all
+            .iter()
+            .filter(|e| e.is("sldId") && e.parent.is_some_and(|list| all[list].is("sldIdLst")))
+            .filter(|e| {
+                let id = e.relationship_id(&xml);
+                self.slides.iter().any(|(slide, _)| Some(slide) == id.as_ref())
+            })
+            .map(|e| xml[e.range.clone()].to_string())
+            .collect();
+        if entries.len() == self.slides.len() {
+            Ok(entries)
         } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
+            Err(PptxError::InvalidState("slide list does not match the slides".to_string()))
         }
     }
 
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
-            .package
-            .get_part_string("ppt/_rels/presentation.xml.rels")
-        {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
-            );
-        }
+    /// Replace the slide list of the presentation
+    fn set_slide_entries(&mut self, entries: &[String]) {
+        let markup = entries.concat();
+        self.edit_part(&presentation_part(&self.package), |xml| {
+            let all = elements(xml);
+            if let Some(list) = all.iter().find(|e| e.is("sldIdLst")) {
+                return with_content(xml, list, &markup);
+            }
+            let Some(root) = all.first() else {
+                return xml.to_string();
+            };
+            let masters = ["sldMasterIdLst", "notesMasterIdLst", "handoutMasterIdLst"];
+            let at = all
+                .iter()
+                .filter(|e| e.parent == Some(0) && masters.iter().any(|name| e.is(name)))
+                .map(|e| e.range.end)
+                .max()
+                .unwrap_or(root.tag.end);
+            let prefix = root.prefix();
+            format!("{}<{prefix}sldIdLst>{markup}</{prefix}sldIdLst>{}", &xml[..at], &xml[at..])
+        });
+    }
+
+    /// Enter a part into the slide list
+    fn list_slide(&mut self, index: usize, part: &str, mut entries: Vec<String>) -> Result<(), PptxError> {
+        let rel_id = self.relate_to_presentation("slide", part);
+        let used: HashSet<u32> = entries
+            .iter()
+            .filter_map(|entry| elements(entry).first()?.attr(entry, "id")?.parse().ok())
+            .collect();
+        let highest = used.iter().copied().max().unwrap_or(0).max(255);
+        let id = if highest < 0x7fff_ffff {
+            highest + 1
+        } else {
+            (256..).find(|id| !used.contains(id)).unwrap_or(256)
+        };
+        let (prefix, rel_prefix) = self.presentation_prefixes();
+        let name = format!("{prefix}sldId");
+        let rel_name = format!("{rel_prefix}id");
+        entries.insert(index, element(&name, &[("id", &id.to_string()), (&rel_name, &rel_id)]));
+        self.set_slide_entries(&entries);
+        self.slides = slide_parts(&self.package);
         Ok(())
     }
 
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
+    /// Prefixes of elements and of relationship attributes in the presentation part
+    fn presentation_prefixes(&self) -> (String, String) {
+        let xml = self
+            .package
+            .get_part_string(&presentation_part(&self.package))
+            .unwrap_or_default();
+        let all = elements(&xml);
+        let Some(root) = all.first() else {
+            return ("p:".to_string(), "r:".to_string());
+        };
+        let rel_prefix = root
+            .attributes(&xml)
+            .into_iter()
+            .find(|(_, value)| value.ends_with("officeDocument/2006/relationships") || value.ends_with("officeDocument/relationships"))
+            .and_then(|(name, _)| name.strip_prefix("xmlns:").map(|prefix| format!("{prefix}:")))
+            .unwrap_or_else(|| "r:".to_string());
+        (root.prefix().to_string(), rel_prefix)
+    }
+
+    /// Add a relationship of the presentation part and return its id
+    fn relate_to_presentation(&mut self, kind: &str, part: &str) -> String {
+        let presentation = presentation_part(&self.package);
+        let existing = part_relationships(&self.package, &presentation);
+        let id = (existing.len() + 1..)
+            .map(|n| format!("rId{n}"))
+            .find(|id| existing.iter().all(|rel| rel.id != *id))
+            .unwrap_or_default();
+        let base = existing
+            .iter()
+            .find(|rel| rel.is("slideMaster") || rel.is("slide"))
+            .and_then(|rel| rel.rel_type.rsplit_once('/'))
+            .map_or(RELATIONSHIPS.to_string(), |(base, _)| base.to_string());
+        let target = relative_target(&presentation, part);
+        self.edit_part(&rels_part_name(&presentation), |xml| {
+            with_root_child(xml, |prefix| {
+                let attributes =
+                    [("Id", id.as_str()), ("Type", &format!("{base}/{kind}")), ("Target", &target)];
+                element(&format!("{prefix}Relationship"), &attributes)
+            })
+        });
+        id
     }
 
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
-        }
-        Ok(())
-    }
+    // Parts
 
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        );
+    /// Parts of a slide with the given content at a place among the slides
+    fn slide_content_parts(
+        &self,
+        content: SlideContent,
+        index: usize,
+        slides: Vec<String>,
+    ) -> Result<Vec<NewPart>, PptxError> {
+        // The slide is generated in a deck of as many slides, so that links between
+        // slides lead to the right ones.
+        let mut deck = vec![Self::blank_slide(); slides.len()];
+        deck[index] = content;
+        let data = create_pptx_with_content("", deck)?;
+        let generated = Package::open_reader(Cursor::new(data))?;
+        let start = format!("ppt/slides/slide{}.xml", index + 1);
+        let names: HashMap<String, String> = slide_parts(&generated)
+            .into_iter()
+            .map(|(_, path)| path)
+            .zip(slides)
+            .collect();
 
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
+        let presentation = presentation_part(&self.package);
+        let masters = part_relationships(&self.package, &presentation);
+        self.copied_parts(&generated, &start, names, |rel| {
+            if rel.is("slideLayout") {
+                return self.layout_like(&generated, &rel.part).map(Some);
+            }
+            if rel.is("notesMaster") {
+                return Ok(masters.iter().find(|m| m.is("notesMaster")).map(|m| m.part.clone()));
+            }
+            // Media that is already there is shared
+            let data = generated.get_part(&rel.part);
+            let media = rel.is("image") || rel.is("media");
+            let same = |path: &&str| {
+                extension(path) == extension(&rel.part) && self.package.get_part(path) == data
+            };
+            let mut paths = self.package.part_paths();
+            paths.sort_unstable();
+            Ok(paths.into_iter().find(|path| media && same(path)).map(str::to_string))
+        })
     }
 
-    fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
-        // Move slide file
-        let old_path = format!("ppt/slides/slide{old_num}.xml");
-        let new_path = format!("ppt/slides/slide{new_num}.xml");
+    /// The slide layout of this presentation that corresponds to a generated one
+    fn layout_like(&self, generated: &Package, layout: &str) -> Result<String, PptxError> {
+        let presentation = presentation_part(&self.package);
+        let layouts: Vec<String> = part_relationships(&self.package, &presentation)
+            .iter()
+            .filter(|rel| rel.is("slideMaster"))
+            .flat_map(|master| part_relationships(&self.package, &master.part))
+            .filter(|rel| rel.is("slideLayout") && self.package.has_part(&rel.part))
+            .map(|rel| rel.part)
+            .collect();
+        let layout_type = |package: &Package, part: &str| {
+            let xml = package.get_part_string(part)?;
+            elements(&xml).first()?.attr(&xml, "type")
+        };
+        let wanted = layout_type(generated, layout);
+        layouts
+            .iter()
+            .find(|path| self.package.get_part(path) == generated.get_part(layout))
+            .or_else(|| layouts.iter().find(|path| layout_type(&self.package, path) == wanted))
+            .or_else(|| layouts.first())
+            .cloned()
+            .ok_or_else(|| PptxError::InvalidState("presentation has no slide layouts".to_string()))
+    }
 
-        if let Some(content) = self.package.remove_part(&old_path) {
-            self.package.add_part(new_path, content);
+    /// Copies of a part and all parts it refers to. `names` holds the names of parts in
+    /// this package; `shared` finds the part of this package to use instead of a copy.
+    fn copied_parts(
+        &self,
+        source: &Package,
+        start: &str,
+        mut names: HashMap<String, String>,
+        shared: impl Fn(&PartRelationship) -> Result<Option<String>, PptxError>,
+    ) -> Result<Vec<NewPart>, PptxError> {
+        let mut taken: HashSet<String> = names.values().cloned().collect();
+        let mut queue = vec![start.to_string()];
+        let mut copies = Vec::new();
+        while let Some(part) = queue.pop() {
+            let name = names[&part].clone();
+            let mut markup = String::new();
+            let relationships = part_relationships(source, &part);
+            for rel in &relationships {
+                let mut attributes = vec![("Id", rel.id.clone()), ("Type", rel.rel_type.clone())];
+                if rel.part.is_empty() {
+                    attributes.push(("Target", rel.target.clone()));
+                    attributes.push(("TargetMode", "External".to_string()));
+                } else {
+                    if !names.contains_key(&rel.part) {
+                        let target = match shared(rel)? {
+                            Some(existing) => existing,
+                            None => {
+                                queue.push(rel.part.clone());
+                                self.free_part_name(&rel.part, &taken)
+                            }
+                        };
+                        taken.insert(target.clone());
+                        names.insert(rel.part.clone(), target);
+                    }
+                    attributes.push(("Target", relative_target(&name, &names[&rel.part])));
+                }
+                let attributes: Vec<(&str, &str)> =
+                    attributes.iter().map(|(name, value)| (*name, value.as_str())).collect();
+                markup.push_str(&element("Relationship", &attributes));
+            }
+            copies.push(NewPart {
+                data: source.get_part(&part).unwrap_or_default().to_vec(),
+                relationships: (!relationships.is_empty()).then(|| {
+                    format!("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{markup}</Relationships>")
+                }),
+                content_type: content_type(source, &part),
+                name,
+            });
         }
+        Ok(copies)
+    }
 
-        // Move slide rels
-        let old_rels = format!("ppt/slides/_rels/slide{old_num}.xml.rels");
-        let new_rels = format!("ppt/slides/_rels/slide{new_num}.xml.rels");
-
-        if let Some(content) = self.package.remove_part(&old_rels) {
-            self.package.add_part(new_rels, content);
+    /// Add parts to the package
+    fn add_parts(&mut self, parts: Vec<NewPart>) -> Result<(), PptxError> {
+        for part in parts {
+            let name = part.name;
+            self.package.add_part(name.clone(), part.data);
+            if let Some(relationships) = part.relationships {
+                self.package.add_part(rels_part_name(&name), relationships.into_bytes());
+            }
+            let Some(wanted) = part.content_type else {
+                continue;
+            };
+            if wanted.ends_with(".notesMaster+xml") {
+                self.list_notes_master(&name);
+            }
+            let current = content_type(&self.package, &name);
+            if current.as_ref() == Some(&wanted) {
+                continue;
+            }
+            let extension = extension(&name).to_string();
+            self.edit_part(CONTENT_TYPES, |xml| {
+                // Defaults come first in the list
+                let Some(root) = elements(xml).into_iter().next() else {
+                    return xml.to_string();
+                };
+                let prefix = root.prefix();
+                if current.is_none() && !extension.is_empty() && extension != "xml" {
+                    let attributes = [("Extension", extension.as_str()), ("ContentType", &wanted)];
+                    let default = element(&format!("{prefix}Default"), &attributes);
+                    let content = root.content.clone().map_or("", |range| &xml[range]);
+                    return with_content(xml, &root, &format!("{default}{content}"));
+                }
+                let part_name = format!("/{name}");
+                let attributes = [("PartName", part_name.as_str()), ("ContentType", &wanted)];
+                with_root_child(xml, |prefix| element(&format!("{prefix}Override"), &attributes))
+            });
         }
-
         Ok(())
     }
 
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
+    /// Enter a notes master into the presentation
+    fn list_notes_master(&mut self, part: &str) {
+        let rel_id = self.relate_to_presentation("notesMaster", part);
+        let (prefix, rel_prefix) = self.presentation_prefixes();
+        self.edit_part(&presentation_part(&self.package), |xml| {
+            let all = elements(xml);
+            let Some(root) = all.first() else {
+                return xml.to_string();
+            };
+            let at = all
+                .iter()
+                .find(|e| e.is("sldMasterIdLst"))
+                .map_or(root.tag.end, |masters| masters.range.end);
+            let entry = element(&format!("{prefix}notesMasterId"), &[(&format!("{rel_prefix}id"), &rel_id)]);
+            format!(
+                "{}<{prefix}notesMasterIdLst>{entry}</{prefix}notesMasterIdLst>{}",
+                &xml[..at],
+                &xml[at..]
+            )
+        });
+    }
+
+    /// A name like that of a part that is not used in the package
+    fn free_part_name(&self, like: &str, taken: &HashSet<String>) -> String {
+        let (stem, extension) = match like.rsplit_once('.') {
+            Some((stem, extension)) if !extension.contains('/') => (stem, format!(".{extension}")),
+            _ => (like, String::new()),
+        };
+        let stem = stem.trim_end_matches(|c: char| c.is_ascii_digit());
+        let used: HashSet<String> = self
             .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
-        for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
-            ));
-        }
+            .part_paths()
+            .into_iter()
+            .map(str::to_lowercase)
+            .chain(taken.iter().map(|name| name.to_lowercase()))
+            .collect();
+        (1..)
+            .map(|n| format!("{stem}{n}{extension}"))
+            .find(|name| !used.contains(&name.to_lowercase()))
+            .unwrap_or_default()
+    }
 
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
-        );
-
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
+    /// All parts that relationships lead to
+    fn reachable_parts(&self) -> HashSet<String> {
+        let mut found = HashSet::new();
+        let mut queue = vec![String::new()];
+        while let Some(part) = queue.pop() {
+            for rel in part_relationships(&self.package, &part) {
+                if self.package.has_part(&rel.part) && found.insert(rel.part.clone()) {
+                    queue.push(rel.part);
+                }
+            }
         }
+        found
+    }
 
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
-            ));
+    /// Remove those of the given parts that are no longer reachable
+    fn remove_unused_parts(&mut self, parts: &HashSet<String>) {
+        let used = self.reachable_parts();
+        let unused: Vec<&String> = parts.difference(&used).collect();
+        for part in &unused {
+            self.package.remove_part(part);
+            self.package.remove_part(&rels_part_name(part));
         }
-
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
-        Ok(())
+        self.edit_part(CONTENT_TYPES, |xml| {
+            let all = elements(xml);
+            let dead = all.iter().filter(|e| {
+                e.attr(xml, "PartName").is_some_and(|name| {
+                    unused.iter().any(|part| name.trim_start_matches('/') == part.as_str())
+                })
+            });
+            without(xml, dead.map(|e| e.range.clone()).collect())
+        });
     }
+}
 
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
-
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
-        Ok(())
-    }
+fn extension(part: &str) -> &str {
+    part.rsplit('/').next().and_then(|name| name.rsplit_once('.')).map_or("", |(_, ext)| ext)
+}
 
-    fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
-        for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-            ));
-        }
+/// Content type of a part
+fn content_type(package: &Package, part: &str) -> Option<String> {
+    let xml = package.get_part_string(CONTENT_TYPES)?;
+    let all = elements(&xml);
+    let entry = |key: &str, value: &str| {
+        all.iter()
+            .find(|e| e.attr(&xml, key).is_some_and(|v| v.eq_ignore_ascii_case(value)))
+            .and_then(|e| e.attr(&xml, "ContentType"))
+    };
+    entry("PartName", &format!("/{part}")).or_else(|| entry("Extension", extension(part)))
+}
 
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
-</Types>"#
-        );
-
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
-        Ok(())
-    }
+/// Target of a relationship from one part to another
+fn relative_target(from: &str, to: &str) -> String {
+    let dir: Vec<&str> = from.split('/').collect();
+    let target: Vec<&str> = to.split('/').collect();
+    let (dir, names) = (&dir[..dir.len() - 1], &target[..target.len() - 1]);
+    let common = dir.iter().zip(names).take_while(|(a, b)| a == b).count();
+    format!("{}{}", "../".repeat(dir.len() - common), target[common..].join("/"))
 }
 
 impl Default for PresentationEditor {
diff --git a/src/oxml/mod.rs b/src/oxml/mod.rs
index 28db7f0..8bf5a4d 100644
--- a/src/oxml/mod.rs
+++ b/src/oxml/mod.rs
@@ -5,6 +5,7 @@ pub mod ns;
 pub mod presentation;
 pub mod repair;
 pub mod slide;
+mod xml_edit;
 pub mod xmlchemy;
 
 pub use editor::PresentationEditor;
diff --git a/src/oxml/xml_edit.rs b/src/oxml/xml_edit.rs
new file mode 100644
index 0000000..6cc60a0
--- /dev/null
+++ b/src/oxml/xml_edit.rs
@@ -0,0 +1,168 @@
+//! In-place editing of XML text
+//!
+//! Finds elements in a document and replaces or removes their text, so that everything
+//! else (comments, extensions, formatting, unknown elements) stays as it was.
+
+use crate::core::escape_xml;
+use std::ops::Range;
+
+/// Position of an element in a document
+#[derive(Debug, Clone)]
+pub(crate) struct ElementSpan {
+    /// Qualified name
+    pub name: String,
+    /// From the start tag to the end tag
+    pub range: Range<usize>,
+    /// Start tag
+    pub tag: Range<usize>,
+    /// Between the tags; `None` for an empty-element tag
+    pub content: Option<Range<usize>>,
+    /// Index of the parent in the list of elements
+    pub parent: Option<usize>,
+}
+
+impl ElementSpan {
+    pub fn is(&self, local_name: &str) -> bool {
+        self.name.rsplit(':').next() == Some(local_name)
+    }
+
+    /// Namespace prefix with its colon, or nothing
+    pub fn prefix(&self) -> &str {
+        self.name.find(':').map_or("", |colon| &self.name[..=colon])
+    }
+
+    /// Attributes as (qualified name, value)
+    pub fn attributes(&self, xml: &str) -> Vec<(String, String)> {
+        let mut found = Vec::new();
+        let mut rest = xml[self.tag.clone()].trim_start_matches('<');
+        rest = rest.get(self.name.len()..).unwrap_or("");
+        while let Some((name, tail)) = rest.split_once('=') {
+            let tail = tail.trim_start();
+            let Some(quote) = tail.chars().next().filter(|c| *c == '"' || *c == '\'') else {
+                break;
+            };
+            let Some((value, tail)) = tail[1..].split_once(quote) else {
+                break;
+            };
+            found.push((name.trim().to_string(), unescape(value)));
+            rest = tail;
+        }
+        found
+    }
+
+    pub fn attr(&self, xml: &str, name: &str) -> Option<String> {
+        self.attributes(xml).into_iter().find(|(n, _)| n == name).map(|(_, v)| v)
+    }
+
+    /// The relationship id the element refers to with an attribute like `r:id`
+    pub fn relationship_id(&self, xml: &str) -> Option<String> {
+        self.attributes(xml).into_iter().find(|(n, _)| n.ends_with(":id")).map(|(_, v)| v)
+    }
+}
+
+fn unescape(value: &str) -> String {
+    value
+        .replace("&lt;", "<")
+        .replace("&gt;", ">")
+        .replace("&quot;", "\"")
+        .replace("&apos;", "'")
+        .replace("&amp;", "&")
+}
+
+/// All elements of a document in the order of their start tags
+pub(crate) fn elements(xml: &str) -> Vec<ElementSpan> {
+    let mut found: Vec<ElementSpan> = Vec::new();
+    let mut open: Vec<usize> = Vec::new();
+    let mut at = 0;
+    while let Some(start) = xml[at..].find('<').map(|i| at + i) {
+        let rest = &xml[start..];
+        let skipped = [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>"), ("<!", ">")];
+        if let Some((_, end)) = skipped.iter().find(|(begin, _)| rest.starts_with(begin)) {
+            at = rest.find(end).map_or(xml.len(), |i| start + i + end.len());
+            continue;
+        }
+        let mut quote = None;
+        let Some(length) = rest.char_indices().find_map(|(i, c)| match (quote, c) {
+            (None, '>') => Some(i + 1),
+            (None, '"' | '\'') => {
+                quote = Some(c);
+                None
+            }
+            (Some(q), c) if q == c => {
+                quote = None;
+                None
+            }
+            _ => None,
+        }) else {
+            break;
+        };
+        let end = start + length;
+        at = end;
+        let tag = &xml[start + 1..end - 1];
+        if tag.starts_with('/') {
+            if let Some(index) = open.pop() {
+                let element = &mut found[index];
+                element.range.end = end;
+                element.content = Some(element.tag.end..start);
+            }
+            continue;
+        }
+        let name = tag.split(|c: char| c.is_whitespace() || c == '/').next().unwrap_or("");
+        if !tag.ends_with('/') {
+            open.push(found.len());
+        }
+        found.push(ElementSpan {
+            name: name.to_string(),
+            range: start..end,
+            tag: start..end,
+            content: None,
+            parent: open.iter().rev().find(|i| **i != found.len()).copied(),
+        });
+    }
+    found
+}
+
+/// The document without the given parts of its text
+pub(crate) fn without(xml: &str, mut ranges: Vec<Range<usize>>) -> String {
+    ranges.sort_by_key(|range| range.start);
+    let mut result = String::with_capacity(xml.len());
+    let mut at = 0;
+    for range in ranges {
+        if range.start >= at {
+            result.push_str(&xml[at..range.start]);
+            at = range.end;
+        }
+    }
+    result.push_str(&xml[at..]);
+    result
+}
+
+/// The document with the content of an element replaced
+pub(crate) fn with_content(xml: &str, element: &ElementSpan, content: &str) -> String {
+    match &element.content {
+        Some(range) => format!("{}{content}{}", &xml[..range.start], &xml[range.end..]),
+        None => {
+            let tag = xml[element.tag.clone()].trim_end_matches('>').trim_end_matches('/');
+            let name = &element.name;
+            format!("{}{tag}>{content}</{name}>{}", &xml[..element.tag.start], &xml[element.tag.end..])
+        }
+    }
+}
+
+/// The document with a child added at the end of its root element
+pub(crate) fn with_root_child(xml: &str, child: impl Fn(&str) -> String) -> String {
+    match elements(xml).first() {
+        Some(root) => {
+            let content = root.content.clone().map_or("", |range| &xml[range]);
+            with_content(xml, root, &format!("{content}{}", child(root.prefix())))
+        }
+        None => xml.to_string(),
+    }
+}
+
+/// An empty element with attributes
+pub(crate) fn element(name: &str, attributes: &[(&str, &str)]) -> String {
+    let attributes: String =
+        attributes.iter().map(|(name, value)| format!(" {name}=\"{}\"", escape_xml(value))).collect();
+    format!("<{name}{attributes}/>")
+}
-- 
2.43.0


From c616ff42418abd89214bb5ece9c96cb0a0f68e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 37/77] fix: package validation judges structure, not one way
 of writing it

Relationship files and content types are parsed; slide ids and order are
free; lost parts, required relationships, content types and markup that
does not parse are reported.
---
 src/core/package_validation/context.rs |  92 ++++---
 src/core/package_validation/rels.rs    |  19 +-
 src/core/package_validation/rules.rs   | 325 +++++++++++++++----------
 src/core/validation.rs                 |  30 +--
 4 files changed, 257 insertions(+), 209 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..f683b44 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -5,12 +5,16 @@ use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
+use crate::oxml::XmlParser;
+
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
 
 #[derive(Debug, Default)]
 pub struct Relationship {
     pub id: String,
+    /// Last segment of the relationship type (e.g. `"slideLayout"`).
+    pub kind: String,
     pub target: String,
     pub resolved: String,
     /// Raw `TargetMode` attribute value (e.g. `"External"`). Empty when absent,
@@ -76,17 +80,33 @@ impl PackageContext {
             .map(|(path, rels)| (path.as_str(), rels.as_slice()))
     }
 
+    /// Relationships of a part; those of the package for an empty path.
+    pub fn relationships_of(&self, part: &str) -> &[Relationship] {
+        let (dir, file) = part.rsplit_once('/').unwrap_or(("", part));
+        let separator = if dir.is_empty() { "" } else { "/" };
+        self.relationships(&format!("{dir}{separator}_rels/{file}.rels"))
+    }
+
     pub fn read_part<R: Read + Seek>(
         &mut self,
         archive: &mut ZipArchive<R>,
         path: &str,
     ) -> Option<String> {
+        self.read_part_or_issue(archive, path).ok()
+    }
+
+    /// Text of a part, or why it cannot be read.
+    pub fn read_part_or_issue<R: Read + Seek>(
+        &mut self,
+        archive: &mut ZipArchive<R>,
+        path: &str,
+    ) -> Result<String, PackageValidationIssue> {
         if let Some(cached) = self.part_cache.get(path) {
-            return Some(cached.clone());
+            return Ok(cached.clone());
         }
-        let content = self.read_part_from_archive(archive, path).ok()?;
+        let content = self.read_part_from_archive(archive, path)?;
         self.part_cache.insert(path.to_string(), content.clone());
-        Some(content)
+        Ok(content)
     }
 
     fn read_part_from_archive<R: Read + Seek>(
@@ -115,52 +135,22 @@ impl PackageContext {
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let mut relationships = Vec::new();
-    let mut search_from = 0;
-
-    while let Some(id_start) = rels_xml[search_from..].find("Id=\"") {
-        let abs_id = search_from + id_start + 4;
-        let Some(id_end) = rels_xml[abs_id..].find('"') else {
-            break;
-        };
-        let id = rels_xml[abs_id..abs_id + id_end].to_string();
-
-        let target_needle = "Target=\"";
-        let after_id = abs_id + id_end;
-        let Some(target_start) = rels_xml[after_id..].find(target_needle) else {
-            search_from = after_id;
-            continue;
-        };
-        let abs_target = after_id + target_start + target_needle.len();
-        let Some(target_end) = rels_xml[abs_target..].find('"') else {
-            break;
-        };
-        let target = rels_xml[abs_target..abs_target + target_end].to_string();
-
-        // Scope the `TargetMode` lookup to the remainder of this element so the
-        // attribute of a later relationship is never mis-attributed.
-        let element_tail_end = rels_xml[abs_target + target_end..]
-            .find('>')
-            .map(|p| abs_target + target_end + p)
-            .unwrap_or(rels_xml.len());
-        let element_tail = &rels_xml[abs_target + target_end..element_tail_end];
-        let target_mode = if element_tail.contains("TargetMode=\"External\"") {
-            "External".to_string()
-        } else {
-            String::new()
-        };
-
-        let resolved = resolve_rel_target(base_dir, &target);
-
-        relationships.push(Relationship {
-            id,
-            target,
-            resolved,
-            target_mode,
-        });
-
-        search_from = element_tail_end;
-    }
-
-    relationships
+    let Ok(root) = XmlParser::parse_str(rels_xml) else {
+        // Reported as malformed XML
+        return Vec::new();
+    };
+    root.find_all("Relationship")
+        .into_iter()
+        .map(|element| {
+            let value = |name: &str| element.attr(name).unwrap_or_default().to_string();
+            let target = value("Target");
+            Relationship {
+                id: value("Id"),
+                kind: value("Type").rsplit('/').next().unwrap_or_default().to_string(),
+                resolved: resolve_rel_target(base_dir, &target),
+                target,
+                target_mode: value("TargetMode"),
+            }
+        })
+        .collect()
 }
diff --git a/src/core/package_validation/rels.rs b/src/core/package_validation/rels.rs
index be550b2..bdb0d6c 100644
--- a/src/core/package_validation/rels.rs
+++ b/src/core/package_validation/rels.rs
@@ -1,13 +1,14 @@
 //! Relationship path resolution for OPC packages.
 
+/// Part a `.rels` file belongs to; empty for the package itself.
+pub fn rels_source_part(rels_path: &str) -> String {
+    let (dir, file) = rels_path.rsplit_once("_rels/").unwrap_or(("", rels_path));
+    format!("{dir}{}", file.strip_suffix(".rels").unwrap_or(file))
+}
+
 /// Directory containing the source part for a `.rels` file.
 pub fn rels_source_dir(rels_path: &str) -> String {
-    if rels_path == "_rels/.rels" {
-        return String::new();
-    }
-    let part_path = rels_path.replacen("/_rels/", "/", 1);
-    let part_path = part_path.strip_suffix(".rels").unwrap_or(&part_path);
-    part_path
+    rels_source_part(rels_path)
         .rsplit_once('/')
         .map(|(dir, _)| dir.to_string())
         .unwrap_or_default()
@@ -15,11 +16,7 @@ pub fn rels_source_dir(rels_path: &str) -> String {
 
 /// Resolve a relationship `Target` relative to the source part directory.
 pub fn resolve_rel_target(base_dir: &str, target: &str) -> String {
-    if target.starts_with('/') {
-        return target.trim_start_matches('/').to_string();
-    }
-
-    let mut parts: Vec<&str> = if base_dir.is_empty() {
+    let mut parts: Vec<&str> = if base_dir.is_empty() || target.starts_with('/') {
         Vec::new()
     } else {
         base_dir.split('/').collect()
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..b4973f9 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -1,14 +1,14 @@
 //! Composable validation rules for generated PPTX packages.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
-use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
+use crate::oxml::XmlParser;
 
-use super::context::PackageContext;
+use super::context::{PackageContext, Relationship};
 use super::report::{
     PackageValidationIssue, PackageValidationReport, ValidationCategory,
 };
@@ -37,6 +37,9 @@ pub fn validate_package<R: Read + Seek>(archive: &mut ZipArchive<R>) -> PackageV
     check_required_parts(&ctx, &mut report);
     check_xml_parts(&mut ctx, archive, &mut report);
     check_relationship_targets(&ctx, &mut report);
+    check_reachable_parts(&ctx, &mut report);
+    check_required_relationships(&ctx, &mut report);
+    check_references(&mut ctx, archive, &mut report);
     check_content_types(&mut ctx, archive, &mut report);
     check_presentation_structure(&mut ctx, archive, &mut report);
     check_slide_master(&mut ctx, archive, &mut report);
@@ -93,14 +96,18 @@ fn check_xml_parts<R: Read + Seek>(
         .collect();
 
     for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
+        match ctx.read_part_or_issue(archive, &path) {
+            Ok(content) => {
+                if let Err(e) = validate_well_formed_xml(&content) {
+                    report.push(PackageValidationIssue::error(
+                        ValidationCategory::Xml,
+                        e.to_string(),
+                        Some(&path),
+                    ));
+                }
             }
+            Err(issue) => report.push(issue),
+        }
     }
 }
 
@@ -131,21 +138,30 @@ fn check_content_types<R: Read + Seek>(
     archive: &mut ZipArchive<R>,
     report: &mut PackageValidationReport,
 ) {
-    let Some(ct) = ctx.read_part(archive, "[Content_Types].xml") else {
+    let Some(types) = ctx
+        .read_part(archive, "[Content_Types].xml")
+        .and_then(|xml| XmlParser::parse_str(&xml).ok())
+    else {
         return;
     };
+    let declared = |element: &str, key: &str| -> HashMap<String, String> {
+        types
+            .find_all(element)
+            .into_iter()
+            .filter_map(|e| Some((e.attr(key)?.to_ascii_lowercase(), e.attr("ContentType")?.to_string())))
+            .collect()
+    };
+    let overrides = declared("Override", "PartName");
+    let defaults = declared("Default", "Extension");
+    let content_type = |path: &str| {
+        let path = path.to_ascii_lowercase();
+        let file = path.rsplit('/').next().unwrap_or("");
+        let extension = file.rsplit_once('.').map_or("", |(_, extension)| extension);
+        overrides.get(&format!("/{path}")).or_else(|| defaults.get(extension)).cloned()
+    };
 
-    for path in &ctx.names {
-        if path.ends_with(".rels") || path == "[Content_Types].xml" {
-            continue;
-        }
-        let override_path = format!("/{path}");
-        if ct.contains(&override_path) {
-            continue;
-        }
-        let ext = path.rsplit('.').next().unwrap_or("");
-        let default_needle = format!("Extension=\"{ext}\"");
-        if ext.is_empty() || !ct.contains(&default_needle) {
+    for path in ctx.names.iter().filter(|path| *path != "[Content_Types].xml") {
+        if content_type(path).is_none() {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::ContentType,
                 format!("Part {path} has no Override or Default in [Content_Types].xml"),
@@ -153,6 +169,102 @@ fn check_content_types<R: Read + Seek>(
             ));
         }
     }
+
+    // The generic type of XML does not say what a part is.
+    let typed: BTreeSet<&str> = ctx
+        .relationship_parts()
+        .flat_map(|(_, rels)| rels)
+        .filter(|rel| rel.target_mode != "External" && TYPED_PARTS.contains(&rel.kind.as_str()))
+        .map(|rel| rel.resolved.as_str())
+        .collect();
+    for path in typed {
+        if content_type(path).is_some_and(|t| t == "application/xml" || t == "text/xml") {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::ContentType,
+                format!("Part {path} has no content type of its own in [Content_Types].xml"),
+                Some(path),
+            ));
+        }
+    }
+}
+
+/// Relationships to XML parts with a content type of their own.
+const TYPED_PARTS: &[&str] = &[
+    "officeDocument",
+    "core-properties",
+    "extended-properties",
+    "custom-properties",
+    "slide",
+    "slideLayout",
+    "slideMaster",
+    "notesSlide",
+    "notesMaster",
+    "handoutMaster",
+    "theme",
+    "presProps",
+    "viewProps",
+    "tableStyles",
+    "chart",
+    "comments",
+    "commentAuthors",
+];
+
+/// Every part is there for another one, which says so.
+fn check_reachable_parts(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    let mut reached: HashSet<&str> = HashSet::new();
+    let mut pending = vec![""];
+    while let Some(part) = pending.pop() {
+        for rel in ctx.relationships_of(part) {
+            if rel.target_mode != "External" && reached.insert(&rel.resolved) {
+                pending.push(&rel.resolved);
+            }
+        }
+    }
+    let mut lost: Vec<&String> = ctx
+        .names
+        .iter()
+        .filter(|name| {
+            !name.ends_with(".rels") && *name != "[Content_Types].xml" && !reached.contains(name.as_str())
+        })
+        .collect();
+    lost.sort();
+    for name in lost {
+        report.push(PackageValidationIssue::error(
+            ValidationCategory::Relationship,
+            format!("No relationship leads to part {name}"),
+            Some(name),
+        ));
+    }
+}
+
+/// Parts without which a part makes no sense.
+fn check_required_relationships(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    let mut kinds: BTreeMap<&str, &str> = BTreeMap::new();
+    for (_, rels) in ctx.relationship_parts() {
+        for rel in rels.iter().filter(|rel| rel.target_mode != "External") {
+            kinds.insert(&rel.resolved, &rel.kind);
+        }
+    }
+    for (part, kind) in kinds {
+        let required: &[&str] = match kind {
+            "officeDocument" => &["slideMaster", "theme"],
+            "slide" => &["slideLayout"],
+            "slideLayout" => &["slideMaster"],
+            "slideMaster" => &["slideLayout", "theme"],
+            "notesSlide" => &["slide", "notesMaster"],
+            "notesMaster" | "handoutMaster" => &["theme"],
+            _ => &[],
+        };
+        for needed in required {
+            if ctx.has_part(part) && !ctx.relationships_of(part).iter().any(|rel| rel.kind == *needed) {
+                report.push(PackageValidationIssue::error(
+                    ValidationCategory::Relationship,
+                    format!("{part} has no {needed} relationship"),
+                    Some(part),
+                ));
+            }
+        }
+    }
 }
 
 fn check_presentation_structure<R: Read + Seek>(
@@ -164,52 +276,45 @@ fn check_presentation_structure<R: Read + Seek>(
         return;
     };
     let pres_rels = ctx.relationships("ppt/_rels/presentation.xml.rels");
-    let rel_by_id: HashMap<&str, &str> = pres_rels
-        .iter()
-        .map(|r| (r.id.as_str(), r.resolved.as_str()))
-        .collect();
+    let rel_by_id: HashMap<&str, &Relationship> =
+        pres_rels.iter().map(|r| (r.id.as_str(), r)).collect();
 
-    let sld_id_count = pres.matches("<p:sldId ").count();
+    let Ok(root) = XmlParser::parse_str(&pres) else {
+        return;
+    };
+    let slide_ids = root.find("sldIdLst").map(|list| list.find_all("sldId")).unwrap_or_default();
 
-    if sld_id_count > 0 {
-        let first_id = format!("id=\"{}\"", slide_id_value(1));
-        if !pres.contains(&first_id) {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::Presentation,
-                format!(
-                    "First slide id should be {} (PowerPoint convention)",
-                    slide_id_value(1)
-                ),
-                Some("ppt/presentation.xml"),
-            ));
-        }
+    let mut problem = |message: String| {
+        report.push(PackageValidationIssue::error(
+            ValidationCategory::Presentation,
+            message,
+            Some("ppt/presentation.xml"),
+        ))
+    };
 
-        let has_notes = pres.contains("<p:notesMasterIdLst>");
-        let has_handout = pres.contains("<p:handoutMasterIdLst>");
-        let expected_first_rid = first_slide_rel_id(has_notes, has_handout);
-        let first_rid = format!(r#"r:id="rId{expected_first_rid}""#);
-        if pres.contains("<p:sldIdLst>") && !pres.contains(&first_rid) {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::Presentation,
-                format!(
-                    "First slide r:id should be rId{expected_first_rid} for this master's optional parts"
-                ),
-                Some("ppt/presentation.xml"),
-            ));
+    let mut seen_ids = HashSet::new();
+    let mut listed = HashSet::new();
+    for slide in &slide_ids {
+        let id = slide.attr("id").unwrap_or_default();
+        if !id.parse::<u32>().is_ok_and(|id| (256..0x8000_0000).contains(&id)) {
+            problem(format!("Slide id \"{id}\" should be a number from 256 to 2147483647"));
+        }
+        if !seen_ids.insert(id) {
+            problem(format!("Slide id {id} is used twice"));
         }
-    }
-
-    validate_presentation_rel_order(pres_rels, report);
 
-    for sld_rid in extract_attr_values(&pres, "p:sldId", "r:id") {
-        let target = rel_by_id.get(sld_rid.as_str());
-        match target {
-            Some(t) if t.contains("/slides/slide") => {}
-            _ => report.push(PackageValidationIssue::error(
-                ValidationCategory::Presentation,
-                format!("Slide r:id=\"{sld_rid}\" does not resolve to a slide part"),
-                Some("ppt/presentation.xml"),
-            )),
+        let rid = slide
+            .attributes
+            .iter()
+            .find(|(name, _)| name.ends_with(":id"))
+            .map_or("", |(_, rid)| rid.as_str());
+        match rel_by_id.get(rid) {
+            Some(rel) if rel.kind == "slide" => {
+                if !listed.insert(rel.resolved.as_str()) {
+                    problem(format!("Slide {} is listed twice", rel.resolved));
+                }
+            }
+            _ => problem(format!("Slide r:id=\"{rid}\" does not resolve to a slide part")),
         }
     }
 
@@ -218,58 +323,14 @@ fn check_presentation_structure<R: Read + Seek>(
         .iter()
         .filter(|n| is_slide_part(n))
         .count();
-    if slide_parts != sld_id_count {
-        report.push(PackageValidationIssue::error(
-            ValidationCategory::Presentation,
-            format!(
-                "Slide count mismatch: {slide_parts} slide parts vs {sld_id_count} p:sldId entries"
-            ),
-            Some("ppt/presentation.xml"),
+    if slide_parts != slide_ids.len() {
+        problem(format!(
+            "Slide count mismatch: {slide_parts} slide parts vs {} p:sldId entries",
+            slide_ids.len()
         ));
     }
 }
 
-fn validate_presentation_rel_order(
-    pres_rels: &[super::context::Relationship],
-    report: &mut PackageValidationReport,
-) {
-    let rels_xml = pres_rels
-        .iter()
-        .map(|r| format!("Id=\"{}\" Target=\"{}\"", r.id, r.target))
-        .collect::<Vec<_>>()
-        .join(" ");
-
-    if !rels_xml.contains("Id=\"rId1\"") || !rels_xml.contains("slideMaster") {
-        report.push(PackageValidationIssue::error(
-            ValidationCategory::Relationship,
-            "presentation.xml.rels missing rId1 (slideMaster)",
-            Some("ppt/_rels/presentation.xml.rels"),
-        ));
-    }
-
-    let slide_pos = rels_xml.find("slides/slide");
-    let pres_props_pos = rels_xml.find("presProps");
-    if let (Some(s), Some(p)) = (slide_pos, pres_props_pos)
-        && s > p {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::Relationship,
-                "Slide relationships should appear before presProps in presentation.xml.rels",
-                Some("ppt/_rels/presentation.xml.rels"),
-            ));
-        }
-
-    let table_pos = rels_xml.find("tableStyles");
-    let theme_pos = rels_xml.find("theme/theme1");
-    if let (Some(t), Some(tb)) = (theme_pos, table_pos)
-        && t > tb {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::Relationship,
-                "theme should appear before tableStyles in presentation.xml.rels",
-                Some("ppt/_rels/presentation.xml.rels"),
-            ));
-        }
-}
-
 fn check_slide_master<R: Read + Seek>(
     ctx: &mut PackageContext,
     archive: &mut ZipArchive<R>,
@@ -382,7 +443,7 @@ fn check_chart_packages<R: Read + Seek>(
         }
 
         let rels = ctx.relationships(&rels_path);
-        let has_embedding = rels.iter().any(|r| r.target.contains("embeddings/"));
+        let has_embedding = rels.iter().any(|r| r.kind == "package");
         if !has_embedding {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::Chart,
@@ -400,16 +461,36 @@ fn check_chart_packages<R: Read + Seek>(
                 ));
             }
 
-        let idx = chart_path
-            .trim_start_matches("ppt/charts/chart")
-            .trim_end_matches(".xml");
-        let embedding = format!("ppt/embeddings/Microsoft_Excel_Sheet{idx}.xlsx");
-        if !ctx.has_part(&embedding) {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::Chart,
-                format!("Chart missing embedding: {embedding}"),
-                Some(&chart_path),
-            ));
+        // The workbook itself is checked as the target of a relationship.
+    }
+}
+
+/// Parts other than slides refer to relationships they have.
+fn check_references<R: Read + Seek>(
+    ctx: &mut PackageContext,
+    archive: &mut ZipArchive<R>,
+    report: &mut PackageValidationReport,
+) {
+    let paths: Vec<String> = ctx
+        .names
+        .iter()
+        .filter(|n| n.ends_with(".xml") && !is_slide_part(n))
+        .cloned()
+        .collect();
+
+    for path in paths {
+        let Some(xml) = ctx.read_part(archive, &path) else {
+            continue;
+        };
+        let rels = ctx.relationships_of(&path);
+        for rid in extract_rel_reference_ids(&xml) {
+            if !rels.iter().any(|rel| rel.id == rid) {
+                report.push(PackageValidationIssue::error(
+                    ValidationCategory::Relationship,
+                    format!("{path} references {rid} but has no such relationship"),
+                    Some(&path),
+                ));
+            }
         }
     }
 }
diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..11bd868 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -1,6 +1,7 @@
 //! Shared validation helpers used across generators, repair, and CLI tools.
 
 use crate::exc::{messages, PptxError, Result};
+use crate::oxml::XmlParser;
 use std::collections::HashSet;
 
 /// A required PPTX package part and its human-readable description.
@@ -98,37 +99,16 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
     Ok(())
 }
 
-/// Basic well-formedness check for XML / RELS content.
+/// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     let trimmed = xml.trim();
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
-        }
-    }
-
-    Ok(())
+    XmlParser::parse_str(xml)
+        .map(|_| ())
+        .map_err(|e| PptxError::InvalidXml(e.to_string()))
 }
 
 /// Check that all required part paths exist in `found`.
-- 
2.43.0


From 970080654acf616df49a58a7a3ba13d97fe8ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 38/77] fix: validation sees second root elements and the types
 of ink and signature parts

---
 src/core/package_validation/rules.rs | 2 ++
 src/oxml/xmlchemy.rs                 | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index b4973f9..aad7b65 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -205,6 +205,8 @@ const TYPED_PARTS: &[&str] = &[
     "viewProps",
     "tableStyles",
     "chart",
+    "ink",
+    "signature",
     "comments",
     "commentAuthors",
 ];
diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index a4e5739..d360bb3 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -5,7 +5,7 @@
 use crate::exc::PptxError;
 use std::collections::HashMap;
 use std::io::Read;
-use xml::reader::{EventReader, XmlEvent};
+use xml::reader::{EventReader, ParserConfig, XmlEvent};
 
 /// Represents an XML element with attributes and children
 #[derive(Debug, Clone)]
@@ -134,7 +134,8 @@ impl XmlParser {
 
     /// Parse XML from a reader
     pub fn parse<R: Read>(reader: R) -> Result<XmlElement, PptxError> {
-        let parser = EventReader::new(reader);
+        let config = ParserConfig::new().allow_multiple_root_elements(false);
+        let parser = EventReader::new_with_config(reader, config);
         let mut stack: Vec<XmlElement> = Vec::new();
         let mut root: Option<XmlElement> = None;
 
-- 
2.43.0


From 4af79a4b25fb6d1ec4f317ec8c0db123053d7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 39/77] fix: repair judges packages by structure, removes what
 it reports and leaves the rest alone

---
 src/oxml/editor.rs       |  11 +-
 src/oxml/presentation.rs |   4 +-
 src/oxml/repair.rs       | 998 ++++++++++++++++++++++++++-------------
 src/oxml/xml_edit.rs     |   9 +
 4 files changed, 674 insertions(+), 348 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 08f7e78..fb42f07 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -13,7 +13,7 @@ use super::presentation::{
     part_relationships, presentation_part, rels_part_name, slide_parts, PartRelationship,
 };
 use super::slide::{ParsedSlide, SlideParser};
-use super::xml_edit::{element, elements, with_content, with_root_child, without};
+use super::xml_edit::{element, elements, relative_target, with_content, with_root_child, without};
 use crate::exc::{messages, PptxError};
 use crate::generator::create_pptx_with_content;
 use crate::generator::slide_content::{SlideContent, SlideLayout};
@@ -605,15 +605,6 @@ fn content_type(package: &Package, part: &str) -> Option<String> {
     entry("PartName", &format!("/{part}")).or_else(|| entry("Extension", extension(part)))
 }
 
-/// Target of a relationship from one part to another
-fn relative_target(from: &str, to: &str) -> String {
-    let dir: Vec<&str> = from.split('/').collect();
-    let target: Vec<&str> = to.split('/').collect();
-    let (dir, names) = (&dir[..dir.len() - 1], &target[..target.len() - 1]);
-    let common = dir.iter().zip(names).take_while(|(a, b)| a == b).count();
-    format!("{}{}", "../".repeat(dir.len() - common), target[common..].join("/"))
-}
-
 impl Default for PresentationEditor {
     fn default() -> Self {
         Self::new()
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 383607c..5e9baf6 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -170,6 +170,7 @@ pub(crate) struct PartRelationship {
     pub target: String,
     /// Name of the part the target refers to (empty for external targets)
     pub part: String,
+    pub is_external: bool,
 }
 
 impl PartRelationship {
@@ -206,6 +207,7 @@ pub(crate) fn part_relationships(package: &Package, part: &str) -> Vec<PartRelat
                 rel_type: rel.attr("Type").unwrap_or("").to_string(),
                 part: if external { String::new() } else { resolve_rel_target(dir, &target) },
                 target,
+                is_external: external,
             })
         })
         .collect()
@@ -264,7 +266,7 @@ pub(crate) fn slide_parts(package: &Package) -> Vec<(String, String)> {
     slides
 }
 
-fn trailing_number(name: &str) -> u64 {
+pub(crate) fn trailing_number(name: &str) -> u64 {
     let digits = name.trim_end_matches(|c: char| c.is_ascii_digit()).len();
     name[digits..].parse().unwrap_or(0)
 }
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..7ad67a4 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -11,11 +11,20 @@ use crate::core::{
     check_required_parts_with_descriptions, validate_well_formed_xml, ValidationIssue,
     REQUIRED_PARTS_REPAIR,
 };
+use super::presentation::{
+    part_relationships, presentation_part, rels_part_name, trailing_number, PartRelationship,
+};
+use super::xml_edit::{element, elements, relative_target, with_content, with_root_child, without};
+use crate::core::package_validation::rels::{rels_source_dir, rels_source_part, resolve_rel_target};
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
-use std::collections::HashSet;
+use crate::oxml::XmlParser;
+use std::collections::{BTreeMap, HashSet};
 use std::path::Path;
 
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const RELATIONSHIPS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+
 /// Types of issues that can be detected in a PPTX file
 #[derive(Debug, Clone, PartialEq)]
 pub enum RepairIssue {
@@ -220,21 +229,36 @@ impl PptxRepair {
             return result;
         }
 
-        // Attempt to repair each issue
-        for issue in &result.issues_found.clone() {
-            if issue.is_repairable() {
-                match self.repair_issue(issue) {
-                    Ok(()) => result.issues_repaired.push(issue.clone()),
-                    Err(_) => result.issues_unrepaired.push(issue.clone()),
+        // A repair can bring other issues to light (a regenerated part may lack a slide),
+        // so repeat until nothing more can be done.
+        let mut tried: Vec<RepairIssue> = Vec::new();
+        loop {
+            let next: Vec<RepairIssue> = self
+                .issues
+                .iter()
+                .filter(|issue| issue.is_repairable() && !tried.contains(issue))
+                .cloned()
+                .collect();
+            if next.is_empty() {
+                break;
+            }
+            for issue in next {
+                // What cannot be repaired is still found by the validation
+                let _ = self.repair_issue(&issue);
+                if !result.issues_found.contains(&issue) {
+                    result.issues_found.push(issue.clone());
                 }
-            } else {
-                result.issues_unrepaired.push(issue.clone());
+                tried.push(issue);
             }
+            self.validate();
         }
 
-        // Re-validate to check if repairs were successful
-        let remaining_issues = self.validate();
-        result.is_valid = remaining_issues.is_empty();
+        let remaining = self.issues.clone();
+        let (unrepaired, repaired) =
+            result.issues_found.iter().cloned().partition(|issue| remaining.contains(issue));
+        result.issues_repaired = repaired;
+        result.issues_unrepaired = unrepaired;
+        result.is_valid = remaining.is_empty();
 
         result
     }
@@ -264,33 +288,44 @@ impl PptxRepair {
     // Validation methods
 
     fn check_required_parts(&mut self) {
+        let presentation = presentation_part(&self.package);
+        let name = |path: &str| match path {
+            "ppt/presentation.xml" => presentation.clone(),
+            "ppt/_rels/presentation.xml.rels" => rels_part_name(&presentation),
+            other => other.to_string(),
+        };
         for issue in check_required_parts_with_descriptions(
-            |path| self.package.has_part(path),
+            |path| self.package.has_part(&name(path)),
             REQUIRED_PARTS_REPAIR,
         ) {
             if let ValidationIssue::MissingPart { path, description } = issue {
                 self.issues.push(RepairIssue::MissingPart {
-                    path,
+                    path: name(&path),
                     description: description.unwrap_or_default(),
                 });
             }
         }
     }
 
-    fn check_xml_validity(&mut self) {
-        let xml_parts: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.ends_with(".xml") || p.ends_with(".rels"))
-            .map(|s| s.to_string())
-            .collect();
+    /// Names of all parts in a fixed order
+    fn parts(&self) -> Vec<String> {
+        let mut paths: Vec<String> = self.package.part_paths().iter().map(|p| p.to_string()).collect();
+        paths.sort();
+        paths
+    }
 
-        for path in xml_parts {
+    fn check_xml_validity(&mut self) {
+        for path in self.parts() {
+            if !path.ends_with(".xml") && !path.ends_with(".rels") {
+                continue;
+            }
             if let Some(content) = self.package.get_part(&path) {
-                let xml_str = String::from_utf8_lossy(content);
-                if let Err(e) = self.validate_xml(&xml_str) {
-                    self.issues.push(RepairIssue::InvalidXml { path, error: e });
+                let checked = match std::str::from_utf8(content) {
+                    Ok(xml) => self.validate_xml(xml),
+                    Err(e) => Err(e.to_string()),
+                };
+                if let Err(error) = checked {
+                    self.issues.push(RepairIssue::InvalidXml { path, error });
                 }
             }
         }
@@ -301,166 +336,160 @@ impl PptxRepair {
     }
 
     fn check_relationships(&mut self) {
-        // Check _rels/.rels
-        self.check_rels_file("_rels/.rels");
-
-        // Check ppt/_rels/presentation.xml.rels
-        self.check_rels_file("ppt/_rels/presentation.xml.rels");
-
-        // Check slide relationship files
-        let slide_rels: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.starts_with("ppt/slides/_rels/") && p.ends_with(".xml.rels"))
-            .map(|s| s.to_string())
-            .collect();
+        for rels_path in self.parts() {
+            if rels_path.ends_with(".rels") {
+                self.check_rels_file(&rels_path);
+            }
+        }
 
-        for rels_path in slide_rels {
-            self.check_rels_file(&rels_path);
+        // The package leads to its presentation
+        let presentation = presentation_part(&self.package);
+        let found = part_relationships(&self.package, "").iter().any(|rel| rel.is("officeDocument"));
+        if !found && self.package.has_part("_rels/.rels") && self.package.has_part(&presentation) {
+            self.issues.push(RepairIssue::BrokenRelationship {
+                source: "_rels/.rels".to_string(),
+                target: presentation,
+                rel_id: String::new(),
+            });
         }
     }
 
     fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
-
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
-
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+        for rel in part_relationships(&self.package, &rels_source_part(rels_path)) {
+            let external = rel.is_external || rel.target.contains("://");
+            if !external && !self.package.has_part(&rel.part) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: rels_path.to_string(),
+                    target: rel.part,
+                    rel_id: rel.id,
+                });
             }
         }
     }
 
+    #[cfg(test)]
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        if let Some(start) = line.find(&pattern) {
-            let value_start = start + pattern.len();
-            if let Some(end) = line[value_start..].find('"') {
-                return Some(line[value_start..value_start + end].to_string());
-            }
-        }
-        None
+        elements(line).first().and_then(|e| e.attr(line, attr))
     }
 
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
-        if let Some(stripped) = target.strip_prefix('/') {
-            return stripped.to_string();
-        }
-
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
-        }
+        resolve_rel_target(&rels_source_dir(rels_path), target)
     }
 
-    fn check_slide_references(&mut self) {
-        // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
-        let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
-
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
-                }
-            }
-        }
+    /// Relationships from the presentation to its slides
+    fn slide_relationships(&self) -> Vec<PartRelationship> {
+        part_relationships(&self.package, &presentation_part(&self.package))
+            .into_iter()
+            .filter(|rel| rel.is("slide") && !rel.is_external)
+            .collect()
+    }
 
-        // Get actual slide files
-        let actual_slides: HashSet<String> = self
+    /// Relationship ids in the slide list of the presentation
+    fn listed_slides(&self) -> Vec<String> {
+        let xml = self
             .package
-            .part_paths()
-            .iter()
+            .get_part_string(&presentation_part(&self.package))
+            .unwrap_or_default();
+        let all = elements(&xml);
+        all.iter()
+            .filter(|e| e.is("sldId") && e.parent.is_some_and(|list| all[list].is("sldIdLst")))
+            .filter_map(|e| e.relationship_id(&xml))
+            .collect()
+    }
+
+    /// Slide parts in the order of the numbers in their names
+    fn slide_files(&self) -> Vec<String> {
+        let mut slides: Vec<String> = self
+            .parts()
+            .into_iter()
             .filter(|p| {
                 p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
             })
-            .map(|s| s.to_string())
             .collect();
+        slides.sort_by_key(|path| trailing_number(path.trim_end_matches(".xml")));
+        slides
+    }
 
-        // Check for orphan references (referenced but don't exist)
-        for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
+    fn check_slide_references(&mut self) {
+        let referenced = self.slide_relationships();
+        let listed = self.listed_slides();
+
+        // References to slides that do not exist
+        for rel in &referenced {
+            if !self.package.has_part(&rel.part) {
                 self.issues.push(RepairIssue::OrphanSlide {
-                    slide_path: slide.clone(),
+                    slide_path: rel.part.clone(),
                 });
             }
         }
-
-        // Check for unreferenced slides
-        for slide in &actual_slides {
-            if !referenced_slides.contains(slide) {
-                self.issues.push(RepairIssue::MissingSlideReference {
-                    slide_path: slide.clone(),
+        let presentation = presentation_part(&self.package);
+        for rel_id in &listed {
+            if !referenced.iter().any(|rel| rel.id == *rel_id) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: presentation.clone(),
+                    target: String::new(),
+                    rel_id: rel_id.clone(),
                 });
             }
         }
+
+        // Slides that are not referenced or not listed
+        let shown = |path: &String| {
+            referenced.iter().any(|rel| rel.part == *path && listed.contains(&rel.id))
+        };
+        let mut slides: Vec<String> = referenced
+            .iter()
+            .map(|rel| rel.part.clone())
+            .filter(|path| self.package.has_part(path))
+            .collect();
+        for path in self.slide_files() {
+            if !slides.contains(&path) {
+                slides.push(path);
+            }
+        }
+        for slide_path in slides {
+            if !shown(&slide_path) {
+                self.issues.push(RepairIssue::MissingSlideReference { slide_path });
+            }
+        }
     }
 
-    fn check_content_types(&mut self) {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Check that all parts have content types
-            let parts = self.package.part_paths();
-            for part in parts {
-                if part == "[Content_Types].xml" {
-                    continue;
-                }
+    /// The list of content types, if it is there and readable
+    fn declared_types(&self) -> Option<DeclaredTypes> {
+        let root = XmlParser::parse_str(&self.package.get_part_string(CONTENT_TYPES)?).ok()?;
+        let entries = |element: &str, key: &str| {
+            root.find_all(element)
+                .into_iter()
+                .filter_map(|e| Some((e.attr(key)?.to_ascii_lowercase(), e.attr("ContentType")?.to_string())))
+                .collect()
+        };
+        Some(DeclaredTypes {
+            overrides: entries("Override", "PartName"),
+            defaults: entries("Default", "Extension"),
+        })
+    }
 
-                // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
-                let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
+    /// Parts with the relationships that lead to them
+    fn parts_by_kind(&self) -> BTreeMap<String, String> {
+        let mut kinds = BTreeMap::new();
+        for rels_path in self.parts().iter().filter(|path| path.ends_with(".rels")) {
+            for rel in part_relationships(&self.package, &rels_source_part(rels_path)) {
+                if !rel.is_external {
+                    let kind = rel.rel_type.rsplit('/').next().unwrap_or_default().to_string();
+                    kinds.insert(rel.part, kind);
+                }
+            }
+        }
+        kinds
+    }
 
-                if !has_override && !has_default && !part.ends_with(".rels") {
-                    self.issues.push(RepairIssue::InvalidContentType {
-                        path: part.to_string(),
-                    });
+    fn check_content_types(&mut self) {
+        // Otherwise reported as a missing part or invalid XML
+        if let Some(types) = self.declared_types() {
+            let kinds = self.parts_by_kind();
+            for path in self.parts() {
+                if path != CONTENT_TYPES && !types.suit(&path, &kinds) {
+                    self.issues.push(RepairIssue::InvalidContentType { path });
                 }
             }
         }
@@ -495,35 +524,43 @@ impl PptxRepair {
     }
 
     fn repair_missing_part(&mut self, path: &str) -> Result<()> {
-        let content = match path {
-            "[Content_Types].xml" => self.generate_content_types(),
-            "_rels/.rels" => self.generate_package_rels(),
-            "ppt/presentation.xml" => self.generate_presentation_xml(),
-            "ppt/_rels/presentation.xml.rels" => self.generate_presentation_rels(),
-            _ => {
-                return Err(PptxError::Generic(format!(
-                    "Cannot generate part: {}",
-                    path
-                )))
-            }
-        };
-
+        if self.package.has_part(path) {
+            return Ok(());
+        }
+        let content = self
+            .generate_part(path)
+            .ok_or_else(|| PptxError::Generic(format!("Cannot generate part: {}", path)))?;
         self.package
             .add_part(path.to_string(), content.into_bytes());
         Ok(())
     }
 
-    fn repair_invalid_xml(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part(path) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Try to repair using anyrepair for JSON-like structures
-            // For XML, we try basic fixes
-            let repaired = self.attempt_xml_repair(&xml_str);
-
-            self.package
-                .add_part(path.to_string(), repaired.into_bytes());
+    fn generate_part(&self, path: &str) -> Option<String> {
+        let presentation = presentation_part(&self.package);
+        match path {
+            CONTENT_TYPES => Some(self.generate_content_types()),
+            "_rels/.rels" => Some(self.generate_package_rels()),
+            path if path == presentation => Some(self.generate_presentation_xml()),
+            path if path == rels_part_name(&presentation) => Some(self.generate_presentation_rels()),
+            _ => None,
         }
+    }
+
+    fn repair_invalid_xml(&mut self, path: &str) -> Result<()> {
+        let Some(content) = self.package.get_part(path) else {
+            return Ok(());
+        };
+        let xml_str = String::from_utf8_lossy(content).to_string();
+        let repaired = self.attempt_xml_repair(&xml_str);
+        let repaired = match self.validate_xml(&repaired) {
+            Ok(()) => repaired,
+            // The parts that hold the package together can be written anew; what is in
+            // any other part is left for others to save.
+            Err(error) => {
+                self.generate_part(path).ok_or(PptxError::InvalidXml(error))?
+            }
+        };
+        self.package.add_part(path.to_string(), repaired.into_bytes());
         Ok(())
     }
 
@@ -588,181 +625,253 @@ impl PptxRepair {
         repaired
     }
 
+    /// Apply an edit to the text of a part
+    fn edit_part(&mut self, part: &str, edit: impl FnOnce(&str) -> String) {
+        if let Some(xml) = self.package.get_part_string(part) {
+            let edited = edit(&xml);
+            if edited != xml {
+                self.package.add_part(part.to_string(), edited.into_bytes());
+            }
+        }
+    }
+
     fn repair_broken_relationship(
         &mut self,
         source: &str,
-        _target: &str,
+        target: &str,
         rel_id: &str,
     ) -> Result<()> {
-        // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
+        let presentation = presentation_part(&self.package);
+        if source == presentation {
+            // An entry of the slide list without a relationship
+            self.edit_part(source, |xml| {
+                let all = elements(xml);
+                let dead = all.iter().filter(|e| {
+                    e.is("sldId") && e.relationship_id(xml).is_some_and(|id| id == rel_id)
+                });
+                without(xml, dead.map(|e| e.range.clone()).collect())
+            });
+            return Ok(());
+        }
 
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
-                .collect();
+        if source == "_rels/.rels" && rel_id.is_empty() {
+            // No relationship leads to the presentation
+            let existing = part_relationships(&self.package, "");
+            if existing.iter().any(|rel| rel.is("officeDocument")) {
+                return Ok(());
+            }
+            let ids = self.package.get_part_string(source).unwrap_or_default();
+            let id = format!("rId{}", u64::from(self.find_max_rel_id(&ids)) + 1);
+            let kind = format!("{RELATIONSHIPS}/officeDocument");
+            self.edit_part(source, |xml| {
+                with_root_child(xml, |prefix| {
+                    element(
+                        &format!("{prefix}Relationship"),
+                        &[("Id", &id), ("Type", &kind), ("Target", target)],
+                    )
+                })
+            });
+            return Ok(());
+        }
+        if self.package.has_part(target) {
+            // Another repair has restored the target
+            return Ok(());
+        }
+        let source_part = rels_source_part(source);
+        let dead_relationship = |xml: &str| {
+            let all = elements(xml);
+            let dead = all.iter().filter(|e| {
+                e.attr(xml, "Id").is_some_and(|id| id == rel_id)
+                    && e.attr(xml, "Target")
+                        .is_some_and(|t| self.resolve_path(source, &t) == target)
+            });
+            without(xml, dead.map(|e| e.range.clone()).collect())
+        };
+        let repaired = self.package.get_part_string(source).map(|xml| dead_relationship(&xml));
+        if let Some(repaired) = repaired {
+            self.package.add_part(source.to_string(), repaired.into_bytes());
+        }
 
-            let repaired = lines.join("\n");
-            self.package
-                .add_part(source.to_string(), repaired.into_bytes());
+        // Nothing may refer to a relationship that is gone
+        if part_relationships(&self.package, &source_part).iter().all(|rel| rel.id != rel_id) {
+            self.edit_part(&source_part, |xml| without_references(xml, rel_id));
         }
         Ok(())
     }
 
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
-        // Add the slide to presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find the highest rId
-            let max_id = self.find_max_rel_id(&xml_str);
-            let new_id = format!("rId{}", max_id + 1);
-
-            // Extract slide number from path
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Add new relationship before </Relationships>
-            let new_rel = format!(
-                "  <Relationship Id=\"{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}\"/>",
-                new_id, slide_target
-            );
-
-            let repaired = xml_str.replace(
-                "</Relationships>",
-                &format!("{}\n</Relationships>", new_rel),
-            );
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
-
-            // Also update presentation.xml sldIdLst
-            self.add_slide_to_presentation(&new_id)?;
+        let presentation = presentation_part(&self.package);
+        let rels_path = rels_part_name(&presentation);
+        let existing = self
+            .slide_relationships()
+            .into_iter()
+            .find(|rel| rel.part == slide_path)
+            .map(|rel| rel.id);
+        let rel_id = match existing {
+            Some(id) => id,
+            None => {
+                let rels = self
+                    .package
+                    .get_part_string(&rels_path)
+                    .ok_or_else(|| PptxError::NotFound(rels_path.clone()))?;
+                let id = format!("rId{}", u64::from(self.find_max_rel_id(&rels)) + 1);
+                let kind = format!("{RELATIONSHIPS}/slide");
+                let target = relative_target(&presentation, slide_path);
+                self.edit_part(&rels_path, |xml| {
+                    with_root_child(xml, |prefix| {
+                        element(
+                            &format!("{prefix}Relationship"),
+                            &[("Id", &id), ("Type", &kind), ("Target", &target)],
+                        )
+                    })
+                });
+                id
+            }
+        };
+        if !self.listed_slides().contains(&rel_id) {
+            self.add_slide_to_presentation(&rel_id)?;
         }
         Ok(())
     }
 
     fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("ppt/presentation.xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
+        let presentation = presentation_part(&self.package);
+        let Some(xml_str) = self.package.get_part_string(&presentation) else {
+            return Ok(());
+        };
+        let all = elements(&xml_str);
+        let Some(root) = all.first() else {
+            return Err(PptxError::InvalidXml(presentation));
+        };
 
-            // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
-            let new_slide_id = max_slide_id + 1;
+        // The next slide id, or a free one if the highest is taken
+        let used: HashSet<u32> = slide_ids(&xml_str).collect();
+        let highest = self.find_max_slide_id(&xml_str).max(255);
+        let slide_id = if highest < 0x7fff_ffff {
+            highest + 1
+        } else {
+            (256..).find(|id| !used.contains(id)).unwrap_or(256)
+        };
 
-            // Add to sldIdLst
-            let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
+        let prefix = root.prefix();
+        let rel_prefix = root
+            .attributes(&xml_str)
+            .into_iter()
+            .find(|(_, value)| value.ends_with("/relationships"))
+            .and_then(|(name, _)| name.strip_prefix("xmlns:").map(str::to_string))
+            .unwrap_or_else(|| "r".to_string());
+        let entry = element(
+            &format!("{prefix}sldId"),
+            &[("id", &slide_id.to_string()), (&format!("{rel_prefix}:id"), rel_id)],
+        );
 
-            let repaired = if xml_str.contains("</p:sldIdLst>") {
-                xml_str.replace("</p:sldIdLst>", &format!("{}\n</p:sldIdLst>", new_entry))
-            } else if xml_str.contains("<p:sldIdLst/>") {
-                xml_str.replace(
-                    "<p:sldIdLst/>",
-                    &format!("<p:sldIdLst>{}</p:sldIdLst>", new_entry),
-                )
-            } else {
-                // Insert sldIdLst after sldMasterIdLst
-                xml_str.replace(
-                    "</p:sldMasterIdLst>",
-                    &format!(
-                        "</p:sldMasterIdLst>\n<p:sldIdLst>{}</p:sldIdLst>",
-                        new_entry
-                    ),
+        let repaired = match all.iter().find(|e| e.is("sldIdLst")) {
+            Some(list) => {
+                let content = list.content.clone().map_or("", |range| &xml_str[range]);
+                with_content(&xml_str, list, &format!("{content}{entry}"))
+            }
+            None => {
+                // The slide list comes after the lists of masters
+                let masters = ["sldMasterIdLst", "notesMasterIdLst", "handoutMasterIdLst"];
+                let at = all
+                    .iter()
+                    .filter(|e| masters.iter().any(|name| e.is(name)))
+                    .map(|e| e.range.end)
+                    .max()
+                    .unwrap_or(root.tag.end);
+                format!(
+                    "{}<{prefix}sldIdLst>{entry}</{prefix}sldIdLst>{}",
+                    &xml_str[..at],
+                    &xml_str[at..]
                 )
-            };
-
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
-        }
+            }
+        };
+        self.package.add_part(presentation, repaired.into_bytes());
         Ok(())
     }
 
     fn find_max_rel_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: Id="rId(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("Id=\"rId") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 7; // Skip "Id=\"rId"
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        elements(xml)
+            .into_iter()
+            .filter_map(|e| e.attr(xml, "Id")?.strip_prefix("rId")?.parse().ok())
+            .max()
+            .unwrap_or(0)
     }
 
     fn find_max_slide_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: <p:sldId id="(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("<p:sldId id=\"") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 13; // Skip "<p:sldId id=\""
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        slide_ids(xml).max().unwrap_or(0)
     }
 
     fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        // Remove the relationship and the entries that use it
+        let rels_path = rels_part_name(&presentation_part(&self.package));
+        for rel in self.slide_relationships() {
+            if rel.part == slide_path {
+                self.repair_broken_relationship(&rels_path, slide_path, &rel.id)?;
+            }
         }
         Ok(())
     }
 
     fn repair_invalid_content_type(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Determine content type based on path
-            let content_type = self.infer_content_type(path);
-
-            // Add Override entry
-            let new_override = format!(
-                "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
-                path, content_type
-            );
-
-            let repaired = xml_str.replace("</Types>", &format!("{}\n</Types>", new_override));
-            self.package
-                .add_part("[Content_Types].xml".to_string(), repaired.into_bytes());
+        let kinds = self.parts_by_kind();
+        if self.declared_types().is_none_or(|types| types.suit(path, &kinds)) {
+            // Another repair has declared it
+            return Ok(());
         }
+        let content_type = self.content_type_for(path, &kinds);
+        let name = format!("/{path}");
+        self.edit_part(CONTENT_TYPES, |xml| {
+            if path.ends_with(".rels") {
+                let Some(root) = elements(xml).into_iter().next() else {
+                    return xml.to_string();
+                };
+                let default = element(
+                    &format!("{}Default", root.prefix()),
+                    &[("Extension", "rels"), ("ContentType", &content_type)],
+                );
+                let content = root.content.clone().map_or("", |range| &xml[range]);
+                return with_content(xml, &root, &format!("{default}{content}"));
+            }
+            // Instead of a generic type it may have now
+            let all = elements(xml);
+            let generic = all.iter().filter(|e| {
+                e.is("Override")
+                    && e.attr(xml, "PartName").is_some_and(|part| part.eq_ignore_ascii_case(&name))
+            });
+            let xml = without(xml, generic.map(|e| e.range.clone()).collect());
+            with_root_child(&xml, |prefix| {
+                element(
+                    &format!("{prefix}Override"),
+                    &[("PartName", &name), ("ContentType", &content_type)],
+                )
+            })
+        });
         Ok(())
     }
 
+    /// Content type of a part, judged by what it is to other parts and by its name
+    fn content_type_for(&self, path: &str, kinds: &BTreeMap<String, String>) -> String {
+        let kind = kinds.get(path).and_then(|kind| type_of_kind(kind));
+        let by_extension = match extension(path).to_ascii_lowercase().as_str() {
+            "rels" => Some("application/vnd.openxmlformats-package.relationships+xml"),
+            "png" => Some("image/png"),
+            "jpg" | "jpeg" => Some("image/jpeg"),
+            "gif" => Some("image/gif"),
+            "bmp" => Some("image/bmp"),
+            "tif" | "tiff" => Some("image/tiff"),
+            "svg" => Some("image/svg+xml"),
+            "webp" => Some("image/webp"),
+            "xlsx" => Some("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"),
+            "sigs" => Some("application/vnd.openxmlformats-package.digital-signature-origin"),
+            "fntdata" => Some("application/x-fontdata"),
+            _ => None,
+        };
+        kind.or(by_extension)
+            .unwrap_or_else(|| self.infer_content_type(path))
+            .to_string()
+    }
+
     fn infer_content_type(&self, path: &str) -> &'static str {
         if path.contains("slideLayout") {
             "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
@@ -835,13 +944,15 @@ impl PptxRepair {
         );
 
         // Add overrides for existing parts
-        for path in self.package.part_paths() {
-            if path.ends_with(".xml") && path != "[Content_Types].xml" {
-                let ct = self.infer_content_type(path);
-                content.push_str(&format!(
-                    "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
-                    path, ct
-                ));
+        let kinds = self.parts_by_kind();
+        for path in self.parts() {
+            let default = matches!(extension(&path), "rels" | "jpeg" | "png");
+            if path != CONTENT_TYPES && !default {
+                let name = format!("/{path}");
+                let ct = self.content_type_for(&path, &kinds);
+                content.push_str("  ");
+                content.push_str(&element("Override", &[("PartName", &name), ("ContentType", &ct)]));
+                content.push('\n');
             }
         }
 
@@ -850,36 +961,249 @@ impl PptxRepair {
     }
 
     fn generate_package_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
-</Relationships>"#.to_string()
+        let core = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties";
+        let parts = [
+            (format!("{RELATIONSHIPS}/officeDocument"), "ppt/presentation.xml"),
+            (core.to_string(), "docProps/core.xml"),
+            (format!("{RELATIONSHIPS}/extended-properties"), "docProps/app.xml"),
+            (format!("{RELATIONSHIPS}/custom-properties"), "docProps/custom.xml"),
+        ];
+        let found: Vec<(String, &str)> = parts
+            .into_iter()
+            .filter(|(_, part)| *part == "ppt/presentation.xml" || self.package.has_part(part))
+            .collect();
+        let entries: Vec<Entry> = found
+            .iter()
+            .enumerate()
+            .map(|(i, (kind, part))| (format!("rId{}", i + 1), kind.clone(), part.to_string()))
+            .collect();
+        relationships_xml(&entries)
     }
 
     fn generate_presentation_xml(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let presentation = presentation_part(&self.package);
+        let relationships = part_relationships(&self.package, &presentation);
+        let list = |kind: &str, name: &str, first_id: Option<u64>| -> String {
+            let mut members: Vec<&PartRelationship> = relationships
+                .iter()
+                .filter(|rel| rel.is(kind) && self.package.has_part(&rel.part))
+                .collect();
+            members.sort_by_key(|rel| trailing_number(rel.part.trim_end_matches(".xml")));
+            if members.is_empty() {
+                return String::new();
+            }
+            let entries: String = members
+                .iter()
+                .enumerate()
+                .map(|(i, rel)| {
+                    let id = first_id.map(|id| (id + i as u64).to_string());
+                    let mut attributes = vec![("r:id", rel.id.as_str())];
+                    if let Some(id) = &id {
+                        attributes.insert(0, ("id", id));
+                    }
+                    element(&format!("p:{name}"), &attributes)
+                })
+                .collect();
+            format!("  <p:{name}Lst>{entries}</p:{name}Lst>\n")
+        };
+        let masters = if relationships.is_empty() {
+            r#"  <p:sldMasterIdLst><p:sldMasterId id="2147483648" r:id="rId1"/></p:sldMasterIdLst>
+"#
+            .to_string()
+        } else {
+            list("slideMaster", "sldMasterId", Some(2147483648))
+        };
+        let slides = list("slide", "sldId", Some(256));
+        let slides = if slides.is_empty() { "  <p:sldIdLst/>\n".to_string() } else { slides };
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:sldMasterIdLst>
-    <p:sldMasterId id="2147483648" r:id="rId1"/>
-  </p:sldMasterIdLst>
-  <p:sldIdLst/>
-  <p:sldSz cx="9144000" cy="6858000"/>
+{masters}{}{}{slides}  <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#,
+            list("notesMaster", "notesMasterId", None),
+            list("handoutMaster", "handoutMasterId", None),
+        )
     }
 
     fn generate_presentation_rels(&self) -> String {
+        let presentation = presentation_part(&self.package);
+        let mut entries: Vec<Entry> = Vec::new();
+        let numbered = |prefix: &str| -> Vec<String> {
+            let mut found: Vec<String> = self
+                .parts()
+                .into_iter()
+                .filter(|path| path.starts_with(prefix) && path.ends_with(".xml"))
+                .collect();
+            found.sort_by_key(|path| trailing_number(path.trim_end_matches(".xml")));
+            found
+        };
+
+        // The presentation knows its parts by the ids in it
+        let xml = self.package.get_part_string(&presentation).unwrap_or_default();
+        let all = elements(&xml);
+        let lists = [
+            ("sldMasterId", "slideMaster", "ppt/slideMasters/slideMaster"),
+            ("sldId", "slide", "ppt/slides/slide"),
+            ("notesMasterId", "notesMaster", "ppt/notesMasters/notesMaster"),
+            ("handoutMasterId", "handoutMaster", "ppt/handoutMasters/handoutMaster"),
+        ];
+        for (name, kind, prefix) in lists {
+            let mut ids: Vec<String> = Vec::new();
+            for id in all.iter().filter(|e| e.is(name)).filter_map(|e| e.relationship_id(&xml)) {
+                if !ids.contains(&id) && entries.iter().all(|(used, _, _)| *used != id) {
+                    ids.push(id);
+                }
+            }
+            for (id, part) in ids.into_iter().zip(numbered(prefix)) {
+                entries.push((id, format!("{RELATIONSHIPS}/{kind}"), relative_target(&presentation, &part)));
+            }
+        }
+        let fonts = all
+            .iter()
+            .filter(|e| e.parent.is_some_and(|parent| all[parent].is("embeddedFont")))
+            .filter_map(|e| e.relationship_id(&xml));
+        let mut font_parts: Vec<String> =
+            self.parts().into_iter().filter(|path| path.starts_with("ppt/fonts/")).collect();
+        font_parts.sort_by_key(|path| {
+            trailing_number(path.rsplit_once('.').map_or(path.as_str(), |(stem, _)| stem))
+        });
+        for (id, part) in fonts.zip(font_parts) {
+            entries.push((id, format!("{RELATIONSHIPS}/font"), relative_target(&presentation, &part)));
+        }
+
+        let mut others = vec![
+            ("theme", "ppt/theme/theme1.xml"),
+            ("presProps", "ppt/presProps.xml"),
+            ("viewProps", "ppt/viewProps.xml"),
+            ("tableStyles", "ppt/tableStyles.xml"),
+            ("commentAuthors", "ppt/commentAuthors.xml"),
+        ];
+        if entries.is_empty() {
+            others.insert(0, ("slideMaster", "ppt/slideMasters/slideMaster1.xml"));
+        }
+        let mut number = 1;
+        for (kind, part) in others {
+            if !self.package.has_part(part) {
+                continue;
+            }
+            while entries.iter().any(|(id, _, _)| *id == format!("rId{number}")) {
+                number += 1;
+            }
+            let target = relative_target(&presentation, part);
+            entries.push((format!("rId{number}"), format!("{RELATIONSHIPS}/{kind}"), target));
+        }
+        relationships_xml(&entries)
+    }
+}
+
+/// The list of content types, by part name and by extension in lower case
+struct DeclaredTypes {
+    overrides: BTreeMap<String, String>,
+    defaults: BTreeMap<String, String>,
+}
+
+impl DeclaredTypes {
+    /// Whether a part has a content type that can be right
+    fn suit(&self, path: &str, kinds: &BTreeMap<String, String>) -> bool {
+        let declared = self
+            .overrides
+            .get(&format!("/{}", path.to_ascii_lowercase()))
+            .or_else(|| self.defaults.get(&extension(path).to_ascii_lowercase()));
+        match declared {
+            None => false,
+            // The generic type of XML does not say what a part is
+            Some(declared) => {
+                declared != "application/xml"
+                    || kinds.get(path).is_none_or(|kind| type_of_kind(kind).is_none())
+            }
+        }
+    }
+}
+
+/// Ids in the slide list of a presentation
+fn slide_ids(xml: &str) -> impl Iterator<Item = u32> {
+    elements(xml)
+        .into_iter()
+        .filter(|e| e.is("sldId") && e.relationship_id(xml).is_some())
+        .filter_map(|e| e.attr(xml, "id")?.parse().ok())
+}
+
+/// Id, type and target of a relationship
+type Entry = (String, String, String);
+
+fn relationships_xml(entries: &[Entry]) -> String {
+    let entries: String = entries
+        .iter()
+        .map(|(id, kind, target)| {
+            format!("  {}\n", element("Relationship", &[("Id", id), ("Type", kind), ("Target", target)]))
+        })
+        .collect();
+    format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="slideMasters/slideMaster1.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/presProps" Target="presProps.xml"/>
-  <Relationship Id="rId4" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/viewProps" Target="viewProps.xml"/>
-  <Relationship Id="rId5" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/tableStyles" Target="tableStyles.xml"/>
-</Relationships>"#.to_string()
+{entries}</Relationships>"#
+    )
+}
+
+fn extension(path: &str) -> &str {
+    path.rsplit('/').next().and_then(|name| name.rsplit_once('.')).map_or("", |(_, ext)| ext)
+}
+
+/// Content type of the targets of a kind of relationship
+fn type_of_kind(kind: &str) -> Option<&'static str> {
+    Some(match kind {
+        "officeDocument" => "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml",
+        "slide" => "application/vnd.openxmlformats-officedocument.presentationml.slide+xml",
+        "slideLayout" => "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml",
+        "slideMaster" => "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml",
+        "notesSlide" => "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml",
+        "notesMaster" => "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml",
+        "handoutMaster" => "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml",
+        "theme" => "application/vnd.openxmlformats-officedocument.theme+xml",
+        "presProps" => "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml",
+        "viewProps" => "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml",
+        "tableStyles" => "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml",
+        "chart" => "application/vnd.openxmlformats-officedocument.drawingml.chart+xml",
+        "ink" => "application/vnd.openxmlformats-officedocument.presentationml.ink+xml",
+        "comments" => "application/vnd.openxmlformats-officedocument.presentationml.comments+xml",
+        "commentAuthors" => "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml",
+        "core-properties" => "application/vnd.openxmlformats-package.core-properties+xml",
+        "extended-properties" => "application/vnd.openxmlformats-officedocument.extended-properties+xml",
+        "custom-properties" => "application/vnd.openxmlformats-officedocument.custom-properties+xml",
+        "signature" => "application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml",
+        _ => return None,
+    })
+}
+
+/// The document without what refers to a relationship: links and list entries, and
+/// pictures, charts and the like as a whole
+fn without_references(xml: &str, rel_id: &str) -> String {
+    let all = elements(xml);
+    let whole = ["pic", "graphicFrame", "contentPart", "AlternateContent"];
+    let mut dead = Vec::new();
+    for e in &all {
+        let refers = e
+            .attributes(xml)
+            .into_iter()
+            .any(|(name, value)| value == rel_id && name.contains(':') && !name.starts_with("xmlns"));
+        if !refers {
+            continue;
+        }
+        let mut removed = e;
+        let mut at = e;
+        while let Some(parent) = at.parent {
+            at = &all[parent];
+            if whole.iter().any(|name| at.is(name)) {
+                removed = at;
+            }
+        }
+        if e.name.contains("hlink") {
+            removed = e;
+        }
+        dead.push(removed.range.clone());
     }
+    without(xml, dead)
 }
 
 #[cfg(test)]
diff --git a/src/oxml/xml_edit.rs b/src/oxml/xml_edit.rs
index 6cc60a0..d8aadbf 100644
--- a/src/oxml/xml_edit.rs
+++ b/src/oxml/xml_edit.rs
@@ -166,3 +166,12 @@ pub(crate) fn element(name: &str, attributes: &[(&str, &str)]) -> String {
         attributes.iter().map(|(name, value)| format!(" {name}=\"{}\"", escape_xml(value))).collect();
     format!("<{name}{attributes}/>")
 }
+
+/// Target of a relationship from one part to another
+pub(crate) fn relative_target(from: &str, to: &str) -> String {
+    let dir: Vec<&str> = from.split('/').collect();
+    let target: Vec<&str> = to.split('/').collect();
+    let (dir, names) = (&dir[..dir.len() - 1], &target[..target.len() - 1]);
+    let common = dir.iter().zip(names).take_while(|(a, b)| a == b).count();
+    format!("{}{}", "../".repeat(dir.len() - common), target[common..].join("/"))
+}
-- 
2.43.0


From 35527aacc53d072db128a68a1602b7a48e432fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 40/77] fix: compression keeps used media and text, and removes
 what was asked for with every reference to it

---
 src/opc/compress.rs      | 346 +++++++++++++++++++++------------------
 src/oxml/editor.rs       |  45 +----
 src/oxml/mod.rs          |   2 +-
 src/oxml/presentation.rs |  47 ++++++
 src/oxml/repair.rs       |   2 +-
 5 files changed, 245 insertions(+), 197 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..d08293b 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -7,8 +7,16 @@
 //! - Optimize XML (remove unnecessary whitespace)
 
 use super::Package;
+use crate::core::validate_well_formed_xml;
 use crate::exc::Result;
+use crate::oxml::presentation::{
+    part_relationships, reachable_parts, rels_part_name, remove_parts, remove_unused_parts,
+    slide_parts,
+};
+use crate::oxml::xml_edit::{elements, without};
 use std::collections::HashSet;
+use std::io::Cursor;
+use std::ops::Range;
 use std::path::Path;
 
 /// Compression level options
@@ -209,207 +217,231 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
 
     let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
 
-    let mut unused_media_removed = 0;
-    let images_compressed = 0;
+    let unused_media_removed = compress_package(&mut package, options);
 
-    // Remove unused media files
-    if options.remove_unused_media {
-        unused_media_removed = remove_unused_media(&mut package)?;
-    }
+    // Save compressed package
+    package.save(output_path.as_ref())?;
 
-    // Remove properties if requested
+    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+
+    Ok(compression_result(original_size, compressed_size, unused_media_removed, options))
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
+    let mut package = Package::open_reader(Cursor::new(data))?;
+    let unused_media_removed = compress_package(&mut package, options);
+
+    let mut output = Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output = output.into_inner();
+
+    let result = compression_result(data.len(), output.len(), unused_media_removed, options);
+    Ok((output, result))
+}
+
+/// Remove and optimize what the options ask for; returns the number of media files removed
+fn compress_package(package: &mut Package, options: &CompressionOptions) -> usize {
     if options.remove_properties {
-        remove_document_properties(&mut package);
+        remove_related(
+            package,
+            &["core-properties", "extended-properties", "custom-properties", "thumbnail"],
+            |path| {
+                matches!(
+                    path,
+                    "docProps/core.xml"
+                        | "docProps/app.xml"
+                        | "docProps/custom.xml"
+                        | "docProps/thumbnail.jpeg"
+                )
+            },
+        );
     }
 
-    // Remove notes if requested
     if options.remove_notes {
-        remove_notes_slides(&mut package)?;
+        remove_related(package, &["notesSlide"], |path| path.starts_with("ppt/notesSlides/"));
+    }
+
+    if options.remove_comments {
+        remove_related(package, &["comments", "commentAuthors", "authors"], |path| {
+            path.starts_with("ppt/comments/")
+                || matches!(path, "ppt/commentAuthors.xml" | "ppt/authors.xml")
+        });
+    }
+
+    // Last, as what was removed may have been the only use of a media file
+    let mut unused_media_removed = 0;
+    if options.remove_unused_media {
+        unused_media_removed = remove_unused_media(package);
     }
 
-    // Optimize XML
     if options.optimize_xml {
-        optimize_xml_content(&mut package)?;
+        optimize_xml_content(package);
     }
 
-    // Save compressed package
-    package.save(output_path.as_ref())?;
+    unused_media_removed
+}
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+fn compression_result(
+    original_size: usize,
+    compressed_size: usize,
+    unused_media_removed: usize,
+    options: &CompressionOptions,
+) -> CompressionResult {
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        (original_size as f64 - compressed_size as f64) / original_size as f64 * 100.0
     } else {
         0.0
     };
 
-    let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
-
-    Ok(CompressionResult {
+    CompressionResult {
         original_size,
         compressed_size,
         reduction_percent,
         unused_media_removed,
-        images_compressed,
-        target_achieved,
-    })
+        images_compressed: 0,
+        target_achieved: options.target_size == 0 || compressed_size <= options.target_size,
+    }
 }
 
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
-
-    Ok((output_data, result))
+/// Names of the parts whose relationships count: the package itself and the parts in it
+fn sources(package: &Package) -> Vec<String> {
+    let mut sources: Vec<String> = package.part_paths().iter().map(|p| p.to_string()).collect();
+    sources.push(String::new());
+    sources
 }
 
 /// Remove unused media files from package
-fn remove_unused_media(package: &mut Package) -> Result<usize> {
-    let media_paths: Vec<String> = package
-        .part_paths()
+fn remove_unused_media(package: &mut Package) -> usize {
+    let used: HashSet<String> = sources(package)
         .iter()
-        .filter(|p| p.starts_with("ppt/media/"))
-        .map(|s| s.to_string())
+        .flat_map(|source| part_relationships(package, source))
+        .map(|rel| rel.part)
         .collect();
-
-    let mut referenced = HashSet::new();
-    let mut removed = 0;
-
-    // Find all media references in slide files
-    for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
-            && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
-                }
-            }
-    }
-
-    // Remove unreferenced media
-    for media_path in media_paths {
-        if !referenced.contains(&media_path) {
-            package.remove_part(&media_path);
-            removed += 1;
-        }
-    }
-
-    Ok(removed)
-}
-
-/// Remove document properties
-fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+    let unused: HashSet<String> = package
+        .part_paths()
+        .into_iter()
+        .filter(|path| path.starts_with("ppt/media/") && !used.contains(*path))
+        .map(|path| path.to_string())
+        .collect();
+    remove_parts(package, &unused);
+    unused.len()
 }
 
-/// Remove notes slides
-fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
+/// Remove the parts that relationships of the given kinds or names lead to, with these
+/// relationships and what only these parts needed
+fn remove_related(package: &mut Package, kinds: &[&str], named: impl Fn(&str) -> bool) {
+    let reachable = reachable_parts(package);
+    let mut removed: HashSet<String> = package
         .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/notesSlides/"))
-        .map(|s| s.to_string())
+        .into_iter()
+        .filter(|path| named(path) && !path.ends_with(".rels"))
+        .map(|path| path.to_string())
         .collect();
-
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
+    let sources = sources(package);
+    for rel in sources.iter().flat_map(|source| part_relationships(package, source)) {
+        if !rel.is_external && kinds.iter().any(|kind| rel.is(kind)) {
+            removed.insert(rel.part);
+        }
+    }
+    for source in sources {
+        let dead: Vec<String> = part_relationships(package, &source)
+            .into_iter()
+            .filter(|rel| removed.contains(&rel.part))
+            .map(|rel| rel.id)
+            .collect();
+        let rels_path = rels_part_name(&source);
+        if let Some(xml) = package.get_part_string(&rels_path).filter(|_| !dead.is_empty()) {
+            let all = elements(&xml);
+            let entries =
+                all.iter().filter(|e| e.attr(&xml, "Id").is_some_and(|id| dead.contains(&id)));
+            let rest = without(&xml, entries.map(|e| e.range.clone()).collect());
+            package.add_part(rels_path, rest.into_bytes());
+        }
     }
+    remove_parts(package, &removed);
 
-    Ok(())
+    // Media files are for the removal of unused media
+    let needed: HashSet<String> =
+        reachable.into_iter().filter(|path| !path.starts_with("ppt/media/")).collect();
+    remove_unused_parts(package, &needed);
 }
 
 /// Optimize XML content (minimize whitespace)
-fn optimize_xml_content(package: &mut Package) -> Result<()> {
+fn optimize_xml_content(package: &mut Package) {
     let xml_paths: Vec<String> = package
         .part_paths()
         .iter()
         .filter(|p| p.ends_with(".xml") || p.ends_with(".rels"))
+        // Whitespace may matter in foreign vocabularies and signed parts
+        .filter(|p| !p.starts_with("customXml/") && !p.starts_with("_xmlsignatures/"))
         .map(|s| s.to_string())
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        let Some(content) = package.get_part(&path).and_then(|c| std::str::from_utf8(c).ok())
+        else {
+            continue;
+        };
+        if validate_well_formed_xml(content).is_ok() {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
-
-    Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the whitespace between elements
 fn minimize_xml(xml: &str) -> String {
-    let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
-            }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
-            }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
-                }
-            }
-            _ => {
-                result.push(ch);
-            }
+    if xml.contains("<!DOCTYPE") {
+        return xml.to_string();
+    }
+    let all = elements(xml);
+    let Some(root) = all.first() else {
+        return xml.to_string();
+    };
+    let space = [' ', '\t', '\r', '\n'];
+    let blank = |range: &Range<usize>| xml[range.clone()].trim_matches(space).is_empty();
+    let mut dead = Vec::new();
+
+    // Around the root element
+    let prolog = xml[..root.range.start].trim_end_matches(space).len();
+    dead.push(prolog..root.range.start);
+    if blank(&(root.range.end..xml.len())) {
+        dead.push(root.range.end..xml.len());
+    }
+
+    // Between the children of elements that have no text of their own
+    let mut children: Vec<Vec<usize>> = vec![Vec::new(); all.len()];
+    for (index, e) in all.iter().enumerate() {
+        if let Some(parent) = e.parent {
+            children[parent].push(index);
         }
-        prev_char = ch;
     }
-
-    result
+    for (index, e) in all.iter().enumerate() {
+        let Some(content) = &e.content else {
+            continue;
+        };
+        let mut at = content.start;
+        let mut gaps = Vec::new();
+        for child in &children[index] {
+            gaps.push(at..all[*child].range.start);
+            at = all[*child].range.end;
+        }
+        gaps.push(at..content.end);
+        let mut ancestor = Some(index);
+        let mut preserved = false;
+        while let Some(at) = ancestor {
+            preserved |= all[at].attr(xml, "xml:space").is_some_and(|space| space == "preserve");
+            ancestor = all[at].parent;
+        }
+        if !children[index].is_empty() && !preserved && gaps.iter().all(blank) {
+            dead.extend(gaps);
+        }
+    }
+    without(xml, dead)
 }
 
 /// Analyze PPTX file and return size breakdown
@@ -422,7 +454,7 @@ pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     let mut other_size = 0;
 
     let mut image_count = 0;
-    let mut slide_count = 0;
+    let slide_count = slide_parts(&package).len();
     let mut media_count = 0;
 
     for part_path in package.part_paths() {
@@ -430,10 +462,7 @@ pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
             let size = data.len();
 
             if part_path.starts_with("ppt/media/") {
-                if part_path.ends_with(".png")
-                    || part_path.ends_with(".jpg")
-                    || part_path.ends_with(".jpeg")
-                {
+                if is_image(part_path) {
                     images_size += size;
                     image_count += 1;
                 } else {
@@ -442,9 +471,6 @@ pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
                 }
             } else if part_path.ends_with(".xml") || part_path.ends_with(".rels") {
                 xml_size += size;
-                if part_path.starts_with("ppt/slides/slide") && part_path.ends_with(".xml") {
-                    slide_count += 1;
-                }
             } else {
                 other_size += size;
             }
@@ -462,6 +488,14 @@ pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     })
 }
 
+fn is_image(path: &str) -> bool {
+    let extension = path.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
+    matches!(
+        extension.as_str(),
+        "png" | "jpg" | "jpeg" | "gif" | "bmp" | "tif" | "tiff" | "svg" | "webp" | "emf" | "wmf"
+    )
+}
+
 /// Analysis result for PPTX file
 #[derive(Debug)]
 pub struct PptxAnalysis {
diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index fb42f07..727d637 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -10,7 +10,8 @@
 //! all other parts of the package are left as they are.
 
 use super::presentation::{
-    part_relationships, presentation_part, rels_part_name, slide_parts, PartRelationship,
+    part_relationships, presentation_part, reachable_parts, rels_part_name, remove_unused_parts,
+    slide_parts, PartRelationship, CONTENT_TYPES,
 };
 use super::slide::{ParsedSlide, SlideParser};
 use super::xml_edit::{element, elements, relative_target, with_content, with_root_child, without};
@@ -21,7 +22,6 @@ use crate::opc::Package;
 use std::collections::{HashMap, HashSet};
 use std::io::Cursor;
 
-const CONTENT_TYPES: &str = "[Content_Types].xml";
 const RELATIONSHIPS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
 
 /// Presentation editor for modifying PPTX files
@@ -88,10 +88,10 @@ impl PresentationEditor {
         let slides = self.slides.iter().map(|(_, path)| path.clone()).collect();
         let parts = self.slide_content_parts(content, index, slides)?;
 
-        let used = self.reachable_parts();
+        let used = reachable_parts(&self.package);
         self.package.remove_part(&rels_part_name(&path));
         self.add_parts(parts)?;
-        self.remove_unused_parts(&used);
+        remove_unused_parts(&mut self.package, &used);
         Ok(())
     }
 
@@ -99,7 +99,7 @@ impl PresentationEditor {
     pub fn remove_slide(&mut self, index: usize) -> Result<(), PptxError> {
         let path = self.slide_path(index)?;
         let mut entries = self.slide_entries()?;
-        let used = self.reachable_parts();
+        let used = reachable_parts(&self.package);
         let rel_id = self.slides[index].0.clone();
 
         let entry = entries.remove(index);
@@ -146,7 +146,7 @@ impl PresentationEditor {
             });
         }
 
-        self.remove_unused_parts(&used);
+        remove_unused_parts(&mut self.package, &used);
         self.slides = slide_parts(&self.package);
         Ok(())
     }
@@ -554,39 +554,6 @@ impl PresentationEditor {
             .find(|name| !used.contains(&name.to_lowercase()))
             .unwrap_or_default()
     }
-
-    /// All parts that relationships lead to
-    fn reachable_parts(&self) -> HashSet<String> {
-        let mut found = HashSet::new();
-        let mut queue = vec![String::new()];
-        while let Some(part) = queue.pop() {
-            for rel in part_relationships(&self.package, &part) {
-                if self.package.has_part(&rel.part) && found.insert(rel.part.clone()) {
-                    queue.push(rel.part);
-                }
-            }
-        }
-        found
-    }
-
-    /// Remove those of the given parts that are no longer reachable
-    fn remove_unused_parts(&mut self, parts: &HashSet<String>) {
-        let used = self.reachable_parts();
-        let unused: Vec<&String> = parts.difference(&used).collect();
-        for part in &unused {
-            self.package.remove_part(part);
-            self.package.remove_part(&rels_part_name(part));
-        }
-        self.edit_part(CONTENT_TYPES, |xml| {
-            let all = elements(xml);
-            let dead = all.iter().filter(|e| {
-                e.attr(xml, "PartName").is_some_and(|name| {
-                    unused.iter().any(|part| name.trim_start_matches('/') == part.as_str())
-                })
-            });
-            without(xml, dead.map(|e| e.range.clone()).collect())
-        });
-    }
 }
 
 fn extension(part: &str) -> &str {
diff --git a/src/oxml/mod.rs b/src/oxml/mod.rs
index 8bf5a4d..8ec38d7 100644
--- a/src/oxml/mod.rs
+++ b/src/oxml/mod.rs
@@ -5,7 +5,7 @@ pub mod ns;
 pub mod presentation;
 pub mod repair;
 pub mod slide;
-mod xml_edit;
+pub(crate) mod xml_edit;
 pub mod xmlchemy;
 
 pub use editor::PresentationEditor;
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 5e9baf6..ce933af 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -3,10 +3,14 @@
 //! Parses presentation.xml and provides high-level access to presentation content.
 
 use super::slide::{ParsedSlide, SlideParser};
+use super::xml_edit::{elements, without};
 use super::xmlchemy::XmlParser;
 use crate::core::package_validation::rels::resolve_rel_target;
 use crate::exc::{messages, PptxError};
 use crate::opc::Package;
+use std::collections::HashSet;
+
+pub(crate) const CONTENT_TYPES: &str = "[Content_Types].xml";
 
 /// Parsed presentation metadata
 #[derive(Debug, Clone)]
@@ -213,6 +217,49 @@ pub(crate) fn part_relationships(package: &Package, part: &str) -> Vec<PartRelat
         .collect()
 }
 
+/// All parts that relationships lead to
+pub(crate) fn reachable_parts(package: &Package) -> HashSet<String> {
+    let mut found = HashSet::new();
+    let mut queue = vec![String::new()];
+    while let Some(part) = queue.pop() {
+        for rel in part_relationships(package, &part) {
+            if package.has_part(&rel.part) && found.insert(rel.part.clone()) {
+                queue.push(rel.part);
+            }
+        }
+    }
+    found
+}
+
+/// Remove those of the given parts that are no longer reachable
+pub(crate) fn remove_unused_parts(package: &mut Package, parts: &HashSet<String>) {
+    let used = reachable_parts(package);
+    remove_parts(package, &parts.difference(&used).cloned().collect());
+}
+
+/// Remove parts with their own relationships and their content types
+pub(crate) fn remove_parts(package: &mut Package, parts: &HashSet<String>) {
+    for part in parts {
+        package.remove_part(part);
+        package.remove_part(&rels_part_name(part));
+    }
+    let Some(xml) = package.get_part_string(CONTENT_TYPES) else {
+        return;
+    };
+    let all = elements(&xml);
+    let dead: Vec<_> = all
+        .iter()
+        .filter(|e| {
+            e.attr(&xml, "PartName")
+                .is_some_and(|name| parts.contains(name.trim_start_matches('/')))
+        })
+        .map(|e| e.range.clone())
+        .collect();
+    if !dead.is_empty() {
+        package.add_part(CONTENT_TYPES.to_string(), without(&xml, dead).into_bytes());
+    }
+}
+
 /// Name of the main presentation part
 pub(crate) fn presentation_part(package: &Package) -> String {
     part_relationships(package, "")
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 7ad67a4..bca9c94 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -13,6 +13,7 @@ use crate::core::{
 };
 use super::presentation::{
     part_relationships, presentation_part, rels_part_name, trailing_number, PartRelationship,
+    CONTENT_TYPES,
 };
 use super::xml_edit::{element, elements, relative_target, with_content, with_root_child, without};
 use crate::core::package_validation::rels::{rels_source_dir, rels_source_part, resolve_rel_target};
@@ -22,7 +23,6 @@ use crate::oxml::XmlParser;
 use std::collections::{BTreeMap, HashSet};
 use std::path::Path;
 
-const CONTENT_TYPES: &str = "[Content_Types].xml";
 const RELATIONSHIPS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
 
 /// Types of issues that can be detected in a PPTX file
-- 
2.43.0


From 5322e15a950292be03b41391bdaf662ceea7d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 41/77] fix: each image export works on files of its own and
 gives the slides asked for

---
 src/export/image_export.rs | 85 +++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 33 deletions(-)

diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index cd6a79a..eeacb56 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -148,21 +148,48 @@ pub fn export_to_images<P: AsRef<Path>>(
     output_dir: P,
     options: &ImageExportOptions,
 ) -> Result<Vec<std::path::PathBuf>> {
-    // First save presentation to temporary PPTX file
-    let temp_dir = std::env::temp_dir();
-    let temp_pptx = temp_dir.join("temp_export.pptx");
-    presentation.save(&temp_pptx)?;
+    // Work in a directory of this export's own: nothing there belongs to
+    // another export, and nothing in the output directory belongs to this one.
+    let work_dir = std::env::temp_dir().join(format!("ppt_rs_export_{}", uuid::Uuid::new_v4()));
+    std::fs::create_dir_all(&work_dir)?;
+    let result = export_in(presentation, &work_dir, output_dir.as_ref(), options);
 
-    let output_dir = output_dir.as_ref();
-    std::fs::create_dir_all(output_dir)?;
+    // Cleanup temp files
+    let _ = std::fs::remove_dir_all(&work_dir);
 
-    // Use LibreOffice to convert to images
-    let result = export_pptx_to_images(&temp_pptx, output_dir, options);
+    result
+}
 
-    // Cleanup temp file
-    let _ = std::fs::remove_file(&temp_pptx);
+/// Convert in the work directory and copy the images to the output directory
+fn export_in(
+    presentation: &Presentation,
+    work_dir: &Path,
+    output_dir: &Path,
+    options: &ImageExportOptions,
+) -> Result<Vec<std::path::PathBuf>> {
+    let temp_pptx = work_dir.join("temp_export.pptx");
+    presentation.save(&temp_pptx)?;
+    let image_dir = work_dir.join("images");
+    std::fs::create_dir_all(&image_dir)?;
 
-    result
+    // Use LibreOffice to convert to images
+    let images = export_pptx_to_images(&temp_pptx, &image_dir, options)?;
+
+    std::fs::create_dir_all(output_dir)?;
+    let mut paths = Vec::new();
+    for image in images {
+        let number = extract_slide_number(&image);
+        // A file without a number shows the first slide
+        if options.slide_number != 0 && number.max(1) != options.slide_number {
+            continue;
+        }
+        if let Some(name) = image.file_name() {
+            let path = output_dir.join(name);
+            std::fs::copy(&image, &path)?;
+            paths.push(path);
+        }
+    }
+    Ok(paths)
 }
 
 /// Export a specific slide to an image
@@ -183,28 +210,20 @@ pub fn export_slide_to_image<P: AsRef<Path>>(
     let mut slide_options = options.clone();
     slide_options.slide_number = slide_number;
 
-    let output_dir = output_path
-        .as_ref()
-        .parent()
-        .unwrap_or(std::path::Path::new("."));
-
-    let paths = export_to_images(presentation, output_dir, &slide_options)?;
-
-    // Find the specific slide file
-    let expected_name = format!("Slide{}.{}", slide_number, slide_options.format.extension());
-    for path in paths {
-        if let Some(name) = path.file_name().and_then(|n| n.to_str())
-            && (name == expected_name || name.contains(&format!("Slide{}", slide_number))) {
-                // Rename to requested output path if different
-                if path != output_path.as_ref() {
-                    std::fs::rename(&path, &output_path)?;
-                    return Ok(output_path.as_ref().to_path_buf());
-                }
-                return Ok(path);
-            }
-    }
-
-    Err(PptxError::Generic(String::from("Export failed")))
+    let work_dir = std::env::temp_dir().join(format!("ppt_rs_export_{}", uuid::Uuid::new_v4()));
+    let result = export_to_images(presentation, &work_dir, &slide_options).and_then(|paths| {
+        let output_path = output_path.as_ref();
+        let path = paths
+            .first()
+            .ok_or_else(|| PptxError::Generic(String::from("Export failed")))?;
+        if let Some(parent) = output_path.parent() {
+            std::fs::create_dir_all(parent)?;
+        }
+        std::fs::copy(path, output_path)?;
+        Ok(output_path.to_path_buf())
+    });
+    let _ = std::fs::remove_dir_all(&work_dir);
+    result
 }
 
 /// Internal function to export PPTX file to images using LibreOffice
-- 
2.43.0


From d4a4a674858db46d40e686d23fc5763aeea39aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 42/77] fix: a presentation from PDF pages keeps their
 pictures, and failed conversions leave no temporary files

---
 src/api.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index aab3c39..938de8d 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -186,7 +186,10 @@ impl Presentation {
 
         // Convert to PDF first (no LibreOffice needed)
         let bytes = crate::export::slide_render::render_to_pdf_bytes(self)?;
-        std::fs::write(&temp_pdf_path, &bytes)?;
+        if let Err(e) = std::fs::write(&temp_pdf_path, &bytes) {
+            let _ = std::fs::remove_file(&temp_pdf_path);
+            return Err(e.into());
+        }
 
         // Convert PDF to PNGs using pdftoppm
         // pdftoppm -png <pdf_file> <image_prefix>
@@ -196,11 +199,12 @@ impl Presentation {
             .arg("-png")
             .arg(&temp_pdf_path)
             .arg(&prefix)
-            .status()
-            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
+            .status();
 
         // Cleanup temp PDF
         let _ = std::fs::remove_file(&temp_pdf_path);
+        let status = status
+            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
         if !status.success() {
             return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
@@ -224,7 +228,13 @@ impl Presentation {
         // Create temp dir for images
         let temp_dir = std::env::temp_dir().join(format!("ppt_rs_import_{}", uuid::Uuid::new_v4()));
         std::fs::create_dir_all(&temp_dir)?;
+        let result = Self::from_pdf_in(path, &temp_dir);
+        let _ = std::fs::remove_dir_all(&temp_dir);
+        result
+    }
 
+    /// Convert the pages in the directory and make a slide of each
+    fn from_pdf_in(path: &Path, temp_dir: &Path) -> Result<Self> {
         // Convert PDF to PNGs
         let prefix = temp_dir.join("page");
 
@@ -236,7 +246,6 @@ impl Presentation {
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
         if !status.success() {
-            let _ = std::fs::remove_dir_all(&temp_dir);
             return Err(PptxError::Generic("pdftoppm failed".to_string()));
         }
 
@@ -248,7 +257,7 @@ impl Presentation {
         }
 
         // Read dir
-        let mut entries: Vec<_> = std::fs::read_dir(&temp_dir)?
+        let mut entries: Vec<_> = std::fs::read_dir(temp_dir)?
             .filter_map(|e| e.ok())
             .collect();
 
@@ -276,7 +285,9 @@ impl Presentation {
             let path = entry.path();
             if path.extension().is_some_and(|e| e == "png") {
                 // Create slide with full screen image
-                let image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                let mut image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                // The file does not outlive this call
+                image.source = Some(crate::generator::ImageSource::Bytes(std::fs::read(&path)?));
 
                 // Add image to slide
                 // Use a default layout?
@@ -293,7 +304,6 @@ impl Presentation {
             }
         }
 
-        let _ = std::fs::remove_dir_all(&temp_dir);
         Ok(pres)
     }
 
@@ -402,10 +412,11 @@ impl Presentation {
         // First save to temp file
         let temp_dir = std::env::temp_dir();
         let temp_path = temp_dir.join(format!("compress_{}.pptx", uuid::Uuid::new_v4()));
-        self.save(&temp_path)?;
 
         // Compress
-        let result = crate::opc::compress::compress_pptx(&temp_path, output_path, options);
+        let result = self
+            .save(&temp_path)
+            .and_then(|_| crate::opc::compress::compress_pptx(&temp_path, output_path, options));
 
         // Cleanup
         let _ = std::fs::remove_file(&temp_path);
@@ -420,9 +431,10 @@ impl Presentation {
         // Save to temp file for analysis
         let temp_dir = std::env::temp_dir();
         let temp_path = temp_dir.join(format!("analyze_{}.pptx", uuid::Uuid::new_v4()));
-        self.save(&temp_path)?;
 
-        let analysis = crate::opc::compress::analyze_pptx(&temp_path);
+        let analysis = self
+            .save(&temp_path)
+            .and_then(|_| crate::opc::compress::analyze_pptx(&temp_path));
 
         // Cleanup
         let _ = std::fs::remove_file(&temp_path);
-- 
2.43.0


From c9a127bdbaabc0f7f343388d9fd90cc3bb736232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:13 +0000
Subject: [PATCH 43/77] fix: document dates follow the calendar

---
 src/core/mod.rs            |  2 ++
 src/core/timestamp.rs      | 36 +++++++++++++++++++++++++++++++++++
 src/generator/props_xml.rs | 27 +-------------------------
 src/parts/coreprops.rs     | 39 ++++----------------------------------
 4 files changed, 43 insertions(+), 61 deletions(-)
 create mode 100644 src/core/timestamp.rs

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 06a5a69..e7d3cb6 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -7,6 +7,7 @@ mod dimension;
 pub(crate) mod package_validation;
 mod placement;
 mod powerpoint_compat;
+mod timestamp;
 mod traits;
 mod validation;
 mod xml_utils;
@@ -18,6 +19,7 @@ pub use package_validation::{
 };
 pub use placement::ElementPlacement;
 pub use powerpoint_compat::{validate_powerpoint_structure, CompatReport};
+pub(crate) use timestamp::current_timestamp;
 pub use traits::{Positioned, Sized as ElementSized, ToXml};
 pub use validation::{
     check_required_parts, check_required_parts_with_descriptions, clamp_ratio,
diff --git a/src/core/timestamp.rs b/src/core/timestamp.rs
new file mode 100644
index 0000000..a11f30d
--- /dev/null
+++ b/src/core/timestamp.rs
@@ -0,0 +1,36 @@
+//! Timestamps of document properties
+
+/// Current time in ISO 8601 format (UTC)
+pub(crate) fn current_timestamp() -> String {
+    let secs = std::time::SystemTime::now()
+        .duration_since(std::time::UNIX_EPOCH)
+        .map_or(0, |d| d.as_secs());
+    let (year, month, day) = civil_date(secs / 86400);
+    let seconds = secs % 86400;
+
+    format!(
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
+        year,
+        month,
+        day,
+        seconds / 3600,
+        (seconds % 3600) / 60,
+        seconds % 60
+    )
+}
+
+/// Gregorian year, month and day of a number of days since 1970-01-01
+fn civil_date(days: u64) -> (u64, u64, u64) {
+    // Count from 0000-03-01, so that a leap day ends its year
+    let days = days + 719_468;
+    let era = days / 146_097;
+    let day_of_era = days % 146_097;
+    let year_of_era =
+        (day_of_era - day_of_era / 1_460 + day_of_era / 36_524 - day_of_era / 146_096) / 365;
+    let day_of_year = day_of_era - (365 * year_of_era + year_of_era / 4 - year_of_era / 100);
+    let month = (5 * day_of_year + 2) / 153;
+    let day = day_of_year - (153 * month + 2) / 5 + 1;
+    let month = if month < 10 { month + 3 } else { month - 9 };
+    let year = era * 400 + year_of_era + u64::from(month <= 2);
+    (year, month, day)
+}
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 68ee43e..b5658c3 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -1,31 +1,6 @@
 //! Document properties XML generation
 
-use crate::core::escape_xml;
-
-/// Get current timestamp in ISO 8601 format (UTC)
-fn current_timestamp() -> String {
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30;
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
+use crate::core::{current_timestamp, escape_xml};
 
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 1d3bbbd..77a216a 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -3,41 +3,10 @@
 //! Represents docProps/core.xml with document metadata.
 
 use super::base::{ContentType, Part, PartType};
-use crate::core::escape_xml;
+use crate::core::{current_timestamp, escape_xml};
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
-/// Get current timestamp in ISO 8601 format (UTC)
-/// Simple alternative to chrono::Utc::now()
-fn current_timestamp() -> String {
-    // Use std::time for current timestamp
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-
-    // Convert to UTC datetime (simplified calculation)
-    // Days since Unix epoch
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    // Approximate date from Unix epoch (1970-01-01)
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30; // Approximate
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
-
 /// Core properties part (docProps/core.xml)
 #[derive(Debug, Clone)]
 pub struct CorePropertiesPart {
@@ -106,7 +75,7 @@ impl CorePropertiesPart {
     pub fn touch(&mut self) {
         self.modified = Some(current_timestamp());
         if let Some(ref mut rev) = self.revision {
-            *rev += 1;
+            *rev = rev.saturating_add(1);
         }
     }
 }
@@ -172,13 +141,13 @@ impl Part for CorePropertiesPart {
         if let Some(ref created) = self.created {
             elements.push(format!(
                 r#"<dcterms:created xsi:type="dcterms:W3CDTF">{}</dcterms:created>"#,
-                created
+                escape_xml(created)
             ));
         }
         if let Some(ref modified) = self.modified {
             elements.push(format!(
                 r#"<dcterms:modified xsi:type="dcterms:W3CDTF">{}</dcterms:modified>"#,
-                modified
+                escape_xml(modified)
             ));
         }
 
-- 
2.43.0


From 0923474634b3ddc6a81c99b86f1fac90bf993ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 44/77] fix: a destination that failed is not written to again,
 interrupted writes are retried, and saving to a writer flushes it

---
 src/generator/builder.rs | 13 +++++----
 src/opc/destination.rs   | 62 ++++++++++++++++++++++++++++++++++++++++
 src/opc/mod.rs           |  1 +
 src/opc/package.rs       |  6 ++--
 4 files changed, 74 insertions(+), 8 deletions(-)
 create mode 100644 src/opc/destination.rs

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 5edd20f..9b92f42 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -4,6 +4,7 @@ use std::borrow::Cow;
 use std::collections::HashSet;
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
+use crate::opc::destination::Destination;
 use zip::ZipWriter;
 use crate::exc::Result;
 use crate::core::append_usize;
@@ -279,12 +280,12 @@ pub fn create_pptx_to_writer<W: Write + Seek>(
     title: &str,
     slides: usize,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(writer);
+    let mut zip = ZipWriter::new(Destination::new(writer));
     let options = FileOptions::default();
 
     write_package_files(&mut zip, &options, title, slides, None, None)?;
 
-    Ok(zip.finish()?)
+    Ok(zip.finish()?.into_inner())
 }
 
 /// Create a PPTX file with custom content and write it directly to a writer (streaming API).
@@ -309,12 +310,12 @@ pub fn create_pptx_with_content_to_writer<W: Write + Seek>(
     slides: &[SlideContent],
     settings: Option<PresentationSettings>,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(writer);
+    let mut zip = ZipWriter::new(Destination::new(writer));
     let options = FileOptions::default();
 
     write_package_files(&mut zip, &options, title, slides.len(), Some(slides), settings)?;
 
-    Ok(zip.finish()?)
+    Ok(zip.finish()?.into_inner())
 }
 
 /// Lazy slide source - allows generating slides on-demand instead of all at once.
@@ -417,12 +418,12 @@ pub fn create_pptx_lazy_to_writer<W: Write + Seek>(
     slides: Box<dyn LazySlideSource>,
     settings: Option<PresentationSettings>,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(writer);
+    let mut zip = ZipWriter::new(Destination::new(writer));
     let options = FileOptions::default();
 
     write_package_files_lazy(&mut zip, &options, title, slides.as_ref(), settings)?;
 
-    Ok(zip.finish()?)
+    Ok(zip.finish()?.into_inner())
 }
 
 /// Chart metadata for slides
diff --git a/src/opc/destination.rs b/src/opc/destination.rs
new file mode 100644
index 0000000..d79724b
--- /dev/null
+++ b/src/opc/destination.rs
@@ -0,0 +1,62 @@
+//! Destination of a package
+
+use std::io::{Error, ErrorKind, Result, Seek, SeekFrom, Write};
+
+/// A destination that is left alone once it failed
+///
+/// The archive writer still finishes its records when it is dropped after an
+/// error; on a destination that works again this would write (or panic) at
+/// positions that are no longer right.
+pub(crate) struct Destination<W> {
+    inner: W,
+    failed: bool,
+}
+
+impl<W> Destination<W> {
+    pub(crate) fn new(inner: W) -> Self {
+        Destination {
+            inner,
+            failed: false,
+        }
+    }
+
+    pub(crate) fn into_inner(self) -> W {
+        self.inner
+    }
+
+    fn attempt<T>(&mut self, mut operation: impl FnMut(&mut W) -> Result<T>) -> Result<T> {
+        if self.failed {
+            return Err(Error::other("the destination failed before"));
+        }
+        // The archive writer gives up where it should try again
+        loop {
+            match operation(&mut self.inner) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                result => {
+                    self.failed = result.is_err();
+                    return result;
+                }
+            }
+        }
+    }
+}
+
+impl<W: Write> Write for Destination<W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        let written = self.attempt(|w| w.write(buf))?;
+        if written == 0 && !buf.is_empty() {
+            self.failed = true;
+        }
+        Ok(written)
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        self.attempt(|w| w.flush())
+    }
+}
+
+impl<W: Seek> Seek for Destination<W> {
+    fn seek(&mut self, position: SeekFrom) -> Result<u64> {
+        self.attempt(|w| w.seek(position))
+    }
+}
diff --git a/src/opc/mod.rs b/src/opc/mod.rs
index c5d269d..6ae37d6 100644
--- a/src/opc/mod.rs
+++ b/src/opc/mod.rs
@@ -2,6 +2,7 @@
 
 pub mod package;
 pub mod compress;
+pub(crate) mod destination;
 
 pub use package::Package;
 pub use compress::{
diff --git a/src/opc/package.rs b/src/opc/package.rs
index 853766f..c8496e2 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -1,5 +1,6 @@
 //! OPC Package handling
 
+use super::destination::Destination;
 use crate::exc::Result;
 use std::collections::HashMap;
 use std::io::Read;
@@ -54,7 +55,7 @@ impl Package {
 
     /// Save the package to a writer
     pub fn save_writer<W: std::io::Write + std::io::Seek>(&self, writer: W) -> Result<()> {
-        let mut archive = zip::ZipWriter::new(writer);
+        let mut archive = zip::ZipWriter::new(Destination::new(writer));
 
         for (path, content) in &self.parts {
             let options = zip::write::FileOptions::default();
@@ -62,7 +63,8 @@ impl Package {
             std::io::Write::write_all(&mut archive, content)?;
         }
 
-        archive.finish()?;
+        // The writer ends here: what it buffers has to be written now
+        std::io::Write::flush(&mut archive.finish()?)?;
 
         Ok(())
     }
-- 
2.43.0


From 8ee251b66dd372a4e0889c7aa7cb89a34fc07eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 45/77] fix: Markdown import keeps nested lists, numbered
 lists, task markers, quotes, second tables and opening blocks

---
 src/cli/markdown/parser.rs | 310 ++++++++++++++-----------------------
 1 file changed, 119 insertions(+), 191 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..5a226b6 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -7,7 +7,7 @@ use pulldown_cmark::{Event, HeadingLevel, Options, Parser, Tag, TagEnd};
 
 use super::mermaid;
 use crate::generator::{
-    CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
+    BulletPoint, BulletStyle, CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
 };
 
 /// Parse markdown content into slides
@@ -16,22 +16,13 @@ pub fn parse(content: &str) -> Result<Vec<SlideContent>, String> {
     parser.parse(content)
 }
 
-/// Represents a task list item
-#[derive(Clone, Debug)]
-struct TaskItem {
-    text: String,
-    checked: bool,
-}
-
 /// State machine for markdown parsing
 struct MarkdownParser {
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
     current_text: String,
-    // List state
-    in_list: bool,
-    list_items: Vec<String>,
-    task_items: Vec<TaskItem>,
+    // Open lists, outermost first: whether each is numbered
+    lists: Vec<bool>,
     // Table state
     in_table: bool,
     table_rows: Vec<Vec<String>>,
@@ -42,17 +33,11 @@ struct MarkdownParser {
     in_code_block: bool,
     code_content: String,
     code_language: Option<String>,
-    // Formatting state
-    is_bold: bool,
-    is_italic: bool,
-    is_strikethrough: bool,
-    // Blockquote (speaker notes)
-    in_blockquote: bool,
+    // Blockquotes (speaker notes), which can be nested
+    blockquote_depth: usize,
     blockquote_text: String,
-    // Image state
+    // Image state: address and description
     pending_image: Option<(String, String)>,
-    // Task list state
-    current_task_checked: bool,
 }
 
 impl MarkdownParser {
@@ -61,9 +46,7 @@ impl MarkdownParser {
             slides: Vec::new(),
             current_slide: None,
             current_text: String::new(),
-            in_list: false,
-            list_items: Vec::new(),
-            task_items: Vec::new(),
+            lists: Vec::new(),
             in_table: false,
             table_rows: Vec::new(),
             current_row: Vec::new(),
@@ -72,13 +55,9 @@ impl MarkdownParser {
             in_code_block: false,
             code_content: String::new(),
             code_language: None,
-            is_bold: false,
-            is_italic: false,
-            is_strikethrough: false,
-            in_blockquote: false,
+            blockquote_depth: 0,
             blockquote_text: String::new(),
             pending_image: None,
-            current_task_checked: false,
         }
     }
 
@@ -105,6 +84,10 @@ impl MarkdownParser {
 
     fn handle_event(&mut self, event: Event) {
         match event {
+            // Headings in list items and quotes are part of their text
+            Event::Start(Tag::Heading { .. }) if self.in_item_or_quote() => self.start_line(),
+            Event::End(TagEnd::Heading(_)) if self.in_item_or_quote() => {}
+
             // Headings create new slides
             Event::Start(Tag::Heading { level, .. }) => {
                 if level == HeadingLevel::H1 {
@@ -116,36 +99,29 @@ impl MarkdownParser {
                 let title = std::mem::take(&mut self.current_text).trim().to_string();
                 if level == HeadingLevel::H1 {
                     self.current_slide = Some(SlideContent::new(&title));
-                } else if let Some(ref mut slide) = self.current_slide {
-                    let formatted = format!("**{}**", title);
-                    *slide = slide.clone().add_bullet(&formatted);
+                } else {
+                    self.add_paragraph(&format!("**{}**", title));
                 }
             }
 
             // Lists
-            Event::Start(Tag::List(_)) => {
-                self.in_list = true;
-                self.list_items.clear();
-                self.task_items.clear();
+            Event::Start(Tag::List(start)) => {
+                // The text before a nested list is the item it belongs to
+                self.flush_item();
+                self.current_text.clear();
+                self.lists.push(start.is_some());
             }
             Event::End(TagEnd::List(_)) => {
-                self.in_list = false;
-                self.flush_list_items();
+                self.flush_item();
+                self.lists.pop();
             }
             Event::Start(Tag::Item) => {
-                self.current_text.clear();
-                // Reset task state for new item
-                self.current_task_checked = false;
+                self.flush_item();
+                self.start_line();
             }
-            Event::End(TagEnd::Item) => {
-                let item = std::mem::take(&mut self.current_text).trim().to_string();
-                if !item.is_empty() {
-                    // Since pulldown-cmark may have stripped the [x]/[ ] already,
-                    // we need to check for task items differently
-                    // For now, we'll treat all items as regular bullets
-                    // and let the user add special characters if they want
-                    self.list_items.push(item);
-                }
+            Event::End(TagEnd::Item) => self.flush_item(),
+            Event::TaskListMarker(checked) => {
+                self.push_text(if checked { "☑ " } else { "☐ " });
             }
 
             // Tables
@@ -207,21 +183,22 @@ impl MarkdownParser {
 
             // Blockquotes (speaker notes)
             Event::Start(Tag::BlockQuote) => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                self.flush_item();
+                self.blockquote_depth += 1;
             }
             Event::End(TagEnd::BlockQuote) => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
+                self.blockquote_depth -= 1;
+                if self.blockquote_depth == 0 {
+                    self.flush_blockquote();
+                }
             }
 
             // Inline formatting
-            Event::Start(Tag::Strong) => self.is_bold = true,
-            Event::End(TagEnd::Strong) => self.is_bold = false,
-            Event::Start(Tag::Emphasis) => self.is_italic = true,
-            Event::End(TagEnd::Emphasis) => self.is_italic = false,
-            Event::Start(Tag::Strikethrough) => self.is_strikethrough = true,
-            Event::End(TagEnd::Strikethrough) => self.is_strikethrough = false,
+            Event::Start(Tag::Strong) | Event::End(TagEnd::Strong) => self.push_text("**"),
+            Event::Start(Tag::Emphasis) | Event::End(TagEnd::Emphasis) => self.push_text("*"),
+            Event::Start(Tag::Strikethrough) | Event::End(TagEnd::Strikethrough) => {
+                self.push_text("~~")
+            }
             Event::Code(code) => {
                 let formatted = format!("`{}`", code);
                 self.push_text(&formatted);
@@ -259,10 +236,8 @@ impl MarkdownParser {
             }
 
             // Images
-            Event::Start(Tag::Image {
-                dest_url, title, ..
-            }) => {
-                self.pending_image = Some((dest_url.to_string(), title.to_string()));
+            Event::Start(Tag::Image { dest_url, .. }) => {
+                self.pending_image = Some((dest_url.to_string(), String::new()));
             }
             Event::End(TagEnd::Image) => {
                 if let Some((url, alt)) = self.pending_image.take() {
@@ -272,11 +247,7 @@ impl MarkdownParser {
 
             // Horizontal rule = slide break
             Event::Rule => {
-                self.finalize_current_slide();
-                if let Some(last) = self.slides.last() {
-                    let title = format!("{} (continued)", last.title);
-                    self.current_slide = Some(SlideContent::new(&title));
-                }
+                self.continue_slide();
             }
 
             // Text content
@@ -289,12 +260,14 @@ impl MarkdownParser {
 
             // Paragraphs
             Event::Start(Tag::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if self.in_item_or_quote() {
+                    self.start_line();
+                } else {
                     self.current_text.clear();
                 }
             }
             Event::End(TagEnd::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if !self.in_item_or_quote() {
                     let text = std::mem::take(&mut self.current_text).trim().to_string();
                     if !text.is_empty() {
                         self.add_paragraph(&text);
@@ -306,86 +279,67 @@ impl MarkdownParser {
         }
     }
 
-    fn push_text(&mut self, text: &str) {
-        let formatted = if self.is_bold && self.is_italic {
-            format!("***{}***", text)
-        } else if self.is_bold {
-            format!("**{}**", text)
-        } else if self.is_italic {
-            format!("*{}*", text)
-        } else if self.is_strikethrough {
-            format!("~~{}~~", text)
-        } else {
-            text.to_string()
-        };
+    fn in_item_or_quote(&self) -> bool {
+        !self.lists.is_empty() || self.blockquote_depth > 0
+    }
 
+    /// Keep the text of a list item or quote apart from what precedes it
+    fn start_line(&mut self) {
+        if self.blockquote_depth > 0 {
+            if !self.blockquote_text.is_empty() {
+                self.blockquote_text.push('\n');
+            }
+        } else if !self.current_text.is_empty() {
+            self.current_text.push(' ');
+        }
+    }
+
+    fn push_text(&mut self, text: &str) {
         if self.in_code_block {
             self.code_content.push_str(text);
+        } else if let Some((_, description)) = &mut self.pending_image {
+            description.push_str(text);
         } else if self.in_table {
-            self.current_cell.push_str(&formatted);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(&formatted);
+            self.current_cell.push_str(text);
+        } else if self.blockquote_depth > 0 {
+            self.blockquote_text.push_str(text);
         } else {
-            self.current_text.push_str(&formatted);
+            self.current_text.push_str(text);
         }
     }
 
-    fn add_paragraph(&mut self, text: &str) {
-        if let Some(ref mut slide) = self.current_slide {
-            *slide = slide.clone().add_bullet(text);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            slide = slide.add_bullet(text);
-            self.current_slide = Some(slide);
-        }
+    /// The slide that content belongs to; before the first heading, one with this title
+    fn slide(&mut self, title: &str) -> &mut SlideContent {
+        self.current_slide
+            .get_or_insert_with(|| SlideContent::new(title))
     }
 
-    fn flush_list_items(&mut self) {
-        // Flush regular list items
-        if !self.list_items.is_empty() {
-            let items = std::mem::take(&mut self.list_items);
+    fn add_paragraph(&mut self, text: &str) {
+        let slide = self.slide("Slide");
+        *slide = slide.clone().add_bullet(text);
+    }
 
-            if let Some(ref mut slide) = self.current_slide {
-                for item in items {
-                    *slide = slide.clone().add_bullet(&item);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for item in items {
-                    slide = slide.add_bullet(&item);
-                }
-                self.current_slide = Some(slide);
-            }
+    /// Make the text of the open list item a bullet
+    fn flush_item(&mut self) {
+        if self.lists.is_empty() || self.blockquote_depth > 0 {
+            return;
         }
-
-        // Flush task list items
-        if !self.task_items.is_empty() {
-            let tasks = std::mem::take(&mut self.task_items);
-
-            if let Some(ref mut slide) = self.current_slide {
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    *slide = slide.clone().add_bullet(&text);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    slide = slide.add_bullet(&text);
-                }
-                self.current_slide = Some(slide);
-            }
+        let item = std::mem::take(&mut self.current_text).trim().to_string();
+        if item.is_empty() {
+            return;
         }
+        let level = self.lists.len() - 1;
+        let numbered = self.lists[level];
+        let slide = self.slide("Slide");
+        let style = if numbered {
+            BulletStyle::Number
+        } else {
+            slide.bullet_style
+        };
+        slide.content.push(format!("{}{}", "  ".repeat(level), item));
+        slide
+            .bullets
+            .push(BulletPoint::new(&item).with_level(level as u32).with_style(style));
     }
 
     fn flush_table(&mut self) {
@@ -396,15 +350,13 @@ impl MarkdownParser {
         let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.table = Some(table);
-            slide.has_table = true;
-        } else {
-            let mut slide = SlideContent::new("Data Table");
-            slide.table = Some(table);
-            slide.has_table = true;
-            self.current_slide = Some(slide);
+        // A slide has one table: another one continues on the next slide
+        if self.current_slide.as_ref().is_some_and(|s| s.table.is_some()) {
+            self.continue_slide();
         }
+        let slide = self.slide("Data Table");
+        slide.table = Some(table);
+        slide.has_table = true;
     }
 
     fn flush_code_block(&mut self) {
@@ -421,15 +373,8 @@ impl MarkdownParser {
             return;
         }
 
-        let code_block = CodeBlock::new(code.trim(), lang_str);
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.code_blocks.push(code_block);
-        } else {
-            let mut slide = SlideContent::new("Code");
-            slide.code_blocks.push(code_block);
-            self.current_slide = Some(slide);
-        }
+        let code_block = CodeBlock::new(code.strip_suffix('\n').unwrap_or(&code), lang_str);
+        self.slide("Code").code_blocks.push(code_block);
     }
 
     fn add_mermaid_diagram(&mut self, code: &str) {
@@ -482,23 +427,9 @@ impl MarkdownParser {
             })
             .collect();
 
-        if let Some(ref mut slide) = self.current_slide {
-            for shape in shapes {
-                slide.shapes.push(shape);
-            }
-            for connector in connectors {
-                slide.connectors.push(connector);
-            }
-        } else {
-            let mut slide = SlideContent::new(title);
-            for shape in shapes {
-                slide.shapes.push(shape);
-            }
-            for connector in connectors {
-                slide.connectors.push(connector);
-            }
-            self.current_slide = Some(slide);
-        }
+        let slide = self.slide(title);
+        slide.shapes.extend(shapes);
+        slide.connectors.extend(connectors);
     }
 
     fn flush_blockquote(&mut self) {
@@ -508,21 +439,17 @@ impl MarkdownParser {
 
         let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(notes);
-        }
+        let slide = self.slide("Slide");
+        slide.notes = Some(match slide.notes.take() {
+            Some(before) => format!("{}\n{}", before, notes),
+            None => notes,
+        });
     }
 
     fn add_image_placeholder(&mut self, url: &str, alt: &str) {
         // Try to download or load the actual image
         if let Some(image) = self.load_image(url, alt) {
-            if let Some(ref mut slide) = self.current_slide {
-                slide.images.push(image);
-            } else {
-                let mut slide = SlideContent::new("Image");
-                slide.images.push(image);
-                self.current_slide = Some(slide);
-            }
+            self.slide("Image").images.push(image);
         } else {
             // Fallback to placeholder if image loading fails
             let label = if alt.is_empty() { url } else { alt };
@@ -530,13 +457,7 @@ impl MarkdownParser {
                 .with_fill(ShapeFill::new("E0E0E0"))
                 .with_text(&format!("[Image: {}]", label));
 
-            if let Some(ref mut slide) = self.current_slide {
-                slide.shapes.push(shape);
-            } else {
-                let mut slide = SlideContent::new("Image");
-                slide.shapes.push(shape);
-                self.current_slide = Some(slide);
-            }
+            self.slide("Image").shapes.push(shape);
         }
     }
 
@@ -595,9 +516,16 @@ impl MarkdownParser {
         }
     }
 
-    fn finalize_current_slide(&mut self) {
-        self.flush_list_items();
+    /// End the slide; what follows goes on one that continues it
+    fn continue_slide(&mut self) {
+        self.finalize_current_slide();
+        if let Some(last) = self.slides.last() {
+            let title = format!("{} (continued)", last.title);
+            self.current_slide = Some(SlideContent::new(&title));
+        }
+    }
 
+    fn finalize_current_slide(&mut self) {
         if let Some(slide) = self.current_slide.take() {
             self.slides.push(slide);
         }
-- 
2.43.0


From dadfdc349c240b88adb192c6526a728d99c335d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:37 +0000
Subject: [PATCH 46/77] fix: HTML import keeps all content: unclosed and stray
 tags, scripts, literal <, entities, second tables, quotes before slides,
 limits

---
 src/import/html.rs | 1134 +++++++++++++++++++++++++++-----------------
 1 file changed, 686 insertions(+), 448 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..a89c2ef 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -121,49 +121,87 @@ enum HtmlEvent {
     Text(String),
 }
 
+/// Names of the characters U+00A0 to U+00FF
+const LATIN1_ENTITIES: &[&str] = &[
+    "nbsp", "iexcl", "cent", "pound", "curren", "yen", "brvbar", "sect",
+    "uml", "copy", "ordf", "laquo", "not", "shy", "reg", "macr",
+    "deg", "plusmn", "sup2", "sup3", "acute", "micro", "para", "middot",
+    "cedil", "sup1", "ordm", "raquo", "frac14", "frac12", "frac34", "iquest",
+    "Agrave", "Aacute", "Acirc", "Atilde", "Auml", "Aring", "AElig", "Ccedil",
+    "Egrave", "Eacute", "Ecirc", "Euml", "Igrave", "Iacute", "Icirc", "Iuml",
+    "ETH", "Ntilde", "Ograve", "Oacute", "Ocirc", "Otilde", "Ouml", "times",
+    "Oslash", "Ugrave", "Uacute", "Ucirc", "Uuml", "Yacute", "THORN", "szlig",
+    "agrave", "aacute", "acirc", "atilde", "auml", "aring", "aelig", "ccedil",
+    "egrave", "eacute", "ecirc", "euml", "igrave", "iacute", "icirc", "iuml",
+    "eth", "ntilde", "ograve", "oacute", "ocirc", "otilde", "ouml", "divide",
+    "oslash", "ugrave", "uacute", "ucirc", "uuml", "yacute", "thorn", "yuml",
+];
+
+/// The character an entity (without `&` and `;`) stands for
+fn entity_char(entity: &str) -> Option<char> {
+    if let Some(num) = entity.strip_prefix('#') {
+        let code = match num.strip_prefix(['x', 'X']) {
+            Some(hex) => u32::from_str_radix(hex, 16).ok()?,
+            None => num.parse::<u32>().ok()?,
+        };
+        return char::from_u32(code);
+    }
+    Some(match entity {
+        "amp" => '&',
+        "lt" => '<',
+        "gt" => '>',
+        "quot" => '"',
+        "apos" => '\'',
+        "lsquo" => '\u{2018}',
+        "rsquo" => '\u{2019}',
+        "sbquo" => '\u{201a}',
+        "ldquo" => '\u{201c}',
+        "rdquo" => '\u{201d}',
+        "bdquo" => '\u{201e}',
+        "ndash" => '\u{2013}',
+        "mdash" => '\u{2014}',
+        "hellip" => '\u{2026}',
+        "bull" => '\u{2022}',
+        "euro" => '\u{20ac}',
+        "trade" => '\u{2122}',
+        "larr" => '\u{2190}',
+        "uarr" => '\u{2191}',
+        "rarr" => '\u{2192}',
+        "darr" => '\u{2193}',
+        "minus" => '\u{2212}',
+        "ne" => '\u{2260}',
+        "le" => '\u{2264}',
+        "ge" => '\u{2265}',
+        "ensp" => '\u{2002}',
+        "emsp" => '\u{2003}',
+        "thinsp" => '\u{2009}',
+        _ => {
+            let i = LATIN1_ENTITIES.iter().position(|n| *n == entity)?;
+            char::from_u32(0xA0 + i as u32)?
+        }
+    })
+}
+
+/// Longest entity looked for
+const MAX_ENTITY_LEN: usize = 12;
+
 /// Decode common HTML entities
 fn decode_entities(s: &str) -> String {
     let mut out = String::with_capacity(s.len());
-    let bytes = s.as_bytes();
-    let mut i = 0;
-    while i < bytes.len() {
-        if bytes[i] == b'&'
-            && let Some(end) = s[i..].find(';') {
-                let entity = &s[i + 1..i + end];
-                let ch = match entity {
-                    "amp" => Some('&'),
-                    "lt" => Some('<'),
-                    "gt" => Some('>'),
-                    "quot" => Some('"'),
-                    "apos" | "#39" | "#x27" => Some('\''),
-                    "nbsp" => Some('\u{00a0}'),
-                    "#x2018" => Some('\u{2018}'),
-                    "#x2019" => Some('\u{2019}'),
-                    "#x201c" => Some('\u{201c}'),
-                    "#x201d" => Some('\u{201d}'),
-                    "#x2014" => Some('\u{2014}'),
-                    "#x2013" => Some('\u{2013}'),
-                    _ => {
-                        if let Some(hex) = entity.strip_prefix("#x") {
-                            u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
-                        } else if let Some(num) = entity.strip_prefix('#') {
-                            num.parse::<u32>().ok().and_then(char::from_u32)
-                        } else {
-                            None
-                        }
-                    }
-                };
-                if let Some(c) = ch {
-                    out.push(c);
-                    i = i + end + 1;
-                    continue;
-                }
+    let mut rest = s;
+    while let Some(amp) = rest.find('&') {
+        out.push_str(&rest[..amp]);
+        rest = &rest[amp + 1..];
+        let end = rest.bytes().take(MAX_ENTITY_LEN).position(|b| b == b';');
+        match end.and_then(|end| Some((end, entity_char(&rest[..end])?))) {
+            Some((end, c)) => {
+                out.push(c);
+                rest = &rest[end + 1..];
             }
-        // Preserve full Unicode characters (not just ASCII bytes)
-        let c = s[i..].chars().next().unwrap();
-        out.push(c);
-        i += c.len_utf8();
+            None => out.push('&'),
+        }
     }
+    out.push_str(rest);
     out
 }
 
@@ -226,6 +264,9 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 fn parse_css_color(value: &str) -> Option<String> {
     let value = value.trim();
     if let Some(hex) = value.strip_prefix('#') {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
@@ -254,15 +295,15 @@ fn parse_css_color(value: &str) -> Option<String> {
 /// Parse a CSS font-size value to points
 fn parse_font_size(value: &str) -> Option<u32> {
     let value = value.trim();
-    if let Some(px) = value.strip_suffix("px") {
-        let px = px.trim().parse::<f64>().ok()?;
-        Some((px / 1.333).round() as u32)
+    let size = if let Some(px) = value.strip_suffix("px") {
+        (px.trim().parse::<f64>().ok()? / 1.333).round()
     } else if let Some(pt) = value.strip_suffix("pt") {
-        let pt = pt.trim().parse::<f64>().ok()?;
-        Some(pt.round() as u32)
+        pt.trim().parse::<f64>().ok()?.round()
     } else {
-        value.parse::<u32>().ok()
-    }
+        value.parse::<u32>().ok()? as f64
+    };
+    // the sizes a presentation can have
+    (1.0..=4000.0).contains(&size).then_some(size as u32)
 }
 
 /// Check if a CSS font-weight value represents bold
@@ -419,151 +460,155 @@ const VOID_TAGS: &[&str] = &[
     "link", "meta", "param", "source", "track", "wbr",
 ];
 
-/// Walk through HTML and produce events
-fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
-    let mut events = Vec::new();
-    let chars: Vec<char> = html.chars().collect();
-    let len = chars.len();
-    let mut i = 0;
+/// Elements whose content is text up to their end tag, whatever it looks like
+const RAW_TEXT_TAGS: &[&str] = &["script", "style", "title", "textarea", "iframe", "xmp", "noframes"];
 
-    while i < len {
-        if chars[i] == '<' {
+fn is_html_space(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C')
+}
+
+fn is_name_char(b: u8) -> bool {
+    b.is_ascii_alphanumeric() || matches!(b, b'-' | b':' | b'_' | b'.') || !b.is_ascii()
+}
+
+/// Position of the next `>` at or after `from`, or the end
+fn find_gt(bytes: &[u8], from: usize) -> usize {
+    bytes[from..].iter().position(|b| *b == b'>').map_or(bytes.len(), |p| from + p)
+}
+
+/// Position of the end tag `</name` at or after `from`, or the end
+fn find_end_tag(bytes: &[u8], from: usize, name: &str) -> usize {
+    let n = name.len();
+    (from..bytes.len().saturating_sub(n + 1))
+        .find(|&i| {
+            bytes[i] == b'<'
+                && bytes[i + 1] == b'/'
+                && bytes[i + 2..i + 2 + n].eq_ignore_ascii_case(name.as_bytes())
+                && bytes.get(i + 2 + n).is_none_or(|b| !is_name_char(*b))
+        })
+        .unwrap_or(bytes.len())
+}
+
+/// Read the attributes of a tag; returns them, the position behind the tag
+/// and whether the tag closes itself
+fn read_attributes(html: &str, mut i: usize) -> (Vec<(String, String)>, usize, bool) {
+    let bytes = html.as_bytes();
+    let len = bytes.len();
+    let mut attrs = Vec::new();
+    let mut self_closing = false;
+
+    while i < len && bytes[i] != b'>' {
+        if bytes[i].is_ascii_whitespace() || bytes[i] == b'/' {
+            self_closing = bytes[i] == b'/';
             i += 1;
-            if i >= len {
-                break;
-            }
+            continue;
+        }
+        self_closing = false;
 
-            // Comment <!-- ... -->
-            if i + 3 <= len && chars[i] == '!' && i + 1 < len && chars[i + 1] == '-' && i + 2 < len && chars[i + 2] == '-' {
-                // skip to -->
-                i += 3;
-                while i + 2 < len && !(chars[i] == '-' && chars[i + 1] == '-' && chars[i + 2] == '>') {
-                    i += 1;
-                }
-                i += 3; // skip -->
-                continue;
-            }
+        // Name
+        let start = i;
+        i += 1;
+        while i < len && !bytes[i].is_ascii_whitespace() && !matches!(bytes[i], b'=' | b'>' | b'/') {
+            i += 1;
+        }
+        let name = html[start..i].to_lowercase();
+        while i < len && bytes[i].is_ascii_whitespace() {
+            i += 1;
+        }
 
-            // Doctype/other <!...>
-            if chars[i] == '!' {
-                while i < len && chars[i] != '>' {
-                    i += 1;
-                }
+        // Value
+        let mut value = "";
+        if i < len && bytes[i] == b'=' {
+            i += 1;
+            while i < len && bytes[i].is_ascii_whitespace() {
                 i += 1;
-                continue;
             }
-
-            // Closing tag </...>
-            if chars[i] == '/' {
-                i += 1;
-                // skip whitespace
-                while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                    i += 1;
-                }
-                let mut name = String::new();
-                while i < len && chars[i] != '>' {
-                    if chars[i].is_alphanumeric() || chars[i] == '-' || chars[i] == ':' || chars[i] == '_' || chars[i] == '.' {
-                        name.push(chars[i]);
-                    }
+            if i < len && (bytes[i] == b'"' || bytes[i] == b'\'') {
+                let quote = bytes[i];
+                let start = i + 1;
+                i = bytes[start..].iter().position(|b| *b == quote).map_or(len, |p| start + p);
+                value = &html[start..i];
+                i = (i + 1).min(len);
+            } else {
+                let start = i;
+                while i < len && !bytes[i].is_ascii_whitespace() && bytes[i] != b'>' {
                     i += 1;
                 }
-                if i < len {
-                    i += 1; // skip '>'
-                }
-                if !name.is_empty() {
-                    events.push(HtmlEvent::CloseTag(name.to_lowercase()));
-                }
-                continue;
+                value = &html[start..i];
             }
+        }
+        attrs.push((name, decode_entities(value)));
+    }
 
-            // Opening or self-closing tag
-            // Skip whitespace before tag name
-            while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                i += 1;
-            }
-            let mut name = String::new();
-            while i < len && (chars[i].is_alphanumeric() || chars[i] == '-' || chars[i] == ':' || chars[i] == '_' || chars[i] == '.') {
-                name.push(chars[i]);
-                i += 1;
-            }
-            let tag_name = name.to_lowercase();
+    (attrs, (i + 1).min(len), self_closing)
+}
 
-            // Parse attributes
-            let mut attrs: Vec<(String, String)> = Vec::new();
+/// Walk through HTML and produce events
+fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
+    let mut events = Vec::new();
+    let bytes = html.as_bytes();
+    let len = bytes.len();
+    let mut text_start = 0;
+    let mut i = 0;
 
-            while i < len && chars[i] != '>' {
-                // Skip whitespace
-                while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                    i += 1;
-                }
-                if i >= len || chars[i] == '>' {
-                    break;
+    while i < len {
+        let next = bytes.get(i + 1).copied();
+        let markup = bytes[i] == b'<'
+            && next.is_some_and(|b| b.is_ascii_alphabetic() || matches!(b, b'!' | b'?' | b'/'));
+        if !markup {
+            i += 1;
+            continue;
+        }
+        if text_start < i {
+            events.push(HtmlEvent::Text(decode_entities(&html[text_start..i])));
+        }
+
+        match next {
+            Some(b'!') if html[i..].starts_with("<!--") => {
+                i = html[i + 4..].find("-->").map_or(len, |p| i + 4 + p + 3);
+            }
+            // Doctype/other <!...> or <?...>
+            Some(b'!' | b'?') => i = (find_gt(bytes, i) + 1).min(len),
+            Some(b'/') => {
+                let mut start = i + 2;
+                while start < len && bytes[start].is_ascii_whitespace() {
+                    start += 1;
                 }
-                if chars[i] == '/' {
-                    i += 1;
-                    continue;
+                let mut end = start;
+                while end < len && is_name_char(bytes[end]) {
+                    end += 1;
                 }
-
-                // Read attribute name
-                let mut attr_name = String::new();
-                while i < len && chars[i] != '=' && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' && chars[i] != '/' {
-                    attr_name.push(chars[i]);
-                    i += 1;
+                if end > start {
+                    events.push(HtmlEvent::CloseTag(html[start..end].to_lowercase()));
                 }
-
-                // Skip whitespace around =
-                while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                    i += 1;
+                i = (find_gt(bytes, end) + 1).min(len);
+            }
+            _ => {
+                let mut end = i + 1;
+                while end < len && is_name_char(bytes[end]) {
+                    end += 1;
                 }
-
-                let mut attr_value = String::new();
-                if i < len && chars[i] == '=' {
-                    i += 1;
-                    // Skip whitespace after =
-                    while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                        i += 1;
-                    }
-                    if i < len && (chars[i] == '"' || chars[i] == '\'') {
-                        let quote = chars[i];
-                        i += 1;
-                        while i < len && chars[i] != quote {
-                            attr_value.push(chars[i]);
-                            i += 1;
-                        }
-                        if i < len {
-                            i += 1; // skip closing quote
-                        }
-                    } else {
-                        // unquoted value
-                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' && chars[i] != '/' {
-                            attr_value.push(chars[i]);
-                            i += 1;
-                        }
+                let name = html[i + 1..end].to_lowercase();
+                let (attrs, after, self_closing) = read_attributes(html, end);
+                i = after;
+                let raw = RAW_TEXT_TAGS.contains(&name.as_str());
+                let empty = self_closing && SKIP_TAGS.contains(&name.as_str());
+                events.push(HtmlEvent::OpenTag { name: name.clone(), attrs });
+                if empty {
+                    events.push(HtmlEvent::CloseTag(name));
+                } else if raw {
+                    let end = find_end_tag(bytes, i, &name);
+                    if end > i {
+                        events.push(HtmlEvent::Text(decode_entities(&html[i..end])));
                     }
+                    i = end;
                 }
-
-                attrs.push((attr_name.to_lowercase(), decode_entities(&attr_value)));
-            }
-
-            if i < len {
-                i += 1; // skip '>'
-            }
-
-            if !tag_name.is_empty() {
-                events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
-            }
-        } else {
-            // Text content
-            let mut text = String::new();
-            while i < len && chars[i] != '<' {
-                text.push(chars[i]);
-                i += 1;
-            }
-            let trimmed = text.trim();
-            if !trimmed.is_empty() {
-                events.push(HtmlEvent::Text(decode_entities(&text)));
             }
         }
+        text_start = i;
+    }
+    if text_start < len {
+        events.push(HtmlEvent::Text(decode_entities(&html[text_start..])));
     }
 
     events
@@ -579,26 +624,67 @@ const SKIP_TAGS: &[&str] = &[
     "title",
 ];
 
+/// Elements that stand for themselves rather than in a line of text
+const BLOCK_TAGS: &[&str] = &[
+    "html", "head", "body", "p", "div", "article", "section", "main", "header", "footer", "aside",
+    "nav", "form", "figure", "figcaption", "address", "center", "details", "summary", "fieldset",
+    "legend", "hgroup", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "dl", "dt", "dd",
+    "pre", "blockquote", "hr", "table", "caption", "thead", "tbody", "tfoot", "tr", "td", "th",
+];
+
+const HEADING_TAGS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6"];
+
+/// The parts of a table
+const TABLE_TAGS: &[&str] = &["table", "caption", "thead", "tbody", "tfoot", "tr", "td", "th"];
+
+/// Elements an opening tag ends, and those that keep it from ending any further out
+const IMPLIED_ENDS: &[(&[&str], &[&str], &[&str])] = &[
+    (&["li"], &["li"], &["ul", "ol", "table", "td", "th", "caption", "blockquote"]),
+    (&["dt", "dd"], &["dt", "dd"], &["dl", "table", "td", "th", "caption", "blockquote"]),
+    (&["td", "th"], &["td", "th", "caption"], &["tr", "table"]),
+    (&["tr"], &["tr", "caption"], &["table"]),
+    (&["thead", "tbody", "tfoot"], &["thead", "tbody", "tfoot", "tr", "caption"], &["table"]),
+];
+
+/// An open element
+struct OpenElement {
+    name: String,
+    style: InlineStyle,
+    /// Whether it took effect when it was opened
+    live: bool,
+}
+
+/// A piece of a line of text
+struct TextRun {
+    text: String,
+    bold: bool,
+    italic: bool,
+}
+
 struct HtmlSlideParser {
     options: HtmlParseOptions,
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
-    text_buffer: String,
-    tag_stack: Vec<String>,
-    style_stack: Vec<InlineStyle>,
-    in_list: bool,
-    in_table: bool,
-    in_code: bool,
-    in_blockquote: bool,
-    italic: bool,
-    list_items: Vec<(String, Option<BulletTextFormat>)>,
+    runs: Vec<TextRun>,
+    /// Pictures (source, description) met in the current text
+    pending_images: Vec<(String, String)>,
+    stack: Vec<OpenElement>,
+    /// Depth of the outermost open element whose content is skipped
+    skip_from: Option<usize>,
+    /// Depth of the open heading
+    heading_at: Option<usize>,
+    code: Option<String>,
+    cell: Option<String>,
+    table_depth: usize,
     table_rows: Vec<Vec<String>>,
     current_row: Vec<String>,
-    current_cell: String,
-    code_content: String,
-    blockquote_text: String,
+    quote_depth: usize,
+    quote_text: String,
+    list_depth: u32,
+    list_items: Vec<(String, Option<BulletTextFormat>)>,
+    bold: usize,
+    italic: usize,
     presentation_title: Option<String>,
-    current_href: Option<String>,
 }
 
 impl HtmlSlideParser {
@@ -607,47 +693,46 @@ impl HtmlSlideParser {
             options,
             slides: Vec::new(),
             current_slide: None,
-            text_buffer: String::new(),
-            tag_stack: Vec::new(),
-            style_stack: Vec::new(),
-            in_list: false,
-            in_table: false,
-            in_code: false,
-            in_blockquote: false,
-            italic: false,
-            list_items: Vec::new(),
+            runs: Vec::new(),
+            pending_images: Vec::new(),
+            stack: Vec::new(),
+            skip_from: None,
+            heading_at: None,
+            code: None,
+            cell: None,
+            table_depth: 0,
             table_rows: Vec::new(),
             current_row: Vec::new(),
-            current_cell: String::new(),
-            code_content: String::new(),
-            blockquote_text: String::new(),
+            quote_depth: 0,
+            quote_text: String::new(),
+            list_depth: 0,
+            list_items: Vec::new(),
+            bold: 0,
+            italic: 0,
             presentation_title: None,
-            current_href: None,
         }
     }
 
-    /// Return the current active style (top of the style stack)
+    /// Return the style of the innermost open block
     fn active_style(&self) -> Option<&InlineStyle> {
-        self.style_stack.last()
+        self.stack
+            .iter()
+            .rev()
+            .find(|e| BLOCK_TAGS.contains(&e.name.as_str()))
+            .or(self.stack.last())
+            .map(|e| &e.style)
     }
 
     fn parse(&mut self, events: &[HtmlEvent]) -> Result<Vec<SlideContent>, String> {
         for event in events {
             match event {
-                HtmlEvent::OpenTag { name, attrs } => {
-                    self.tag_stack.push(name.clone());
-                    self.handle_open_tag(name, attrs);
-                }
-                HtmlEvent::CloseTag(name) => {
-                    self.handle_close_tag(name);
-                    self.tag_stack.pop();
-                }
-                HtmlEvent::Text(text) => {
-                    self.handle_text(text);
-                }
+                HtmlEvent::OpenTag { name, attrs } => self.handle_open_tag(name, attrs),
+                HtmlEvent::CloseTag(name) => self.handle_close_tag(name),
+                HtmlEvent::Text(text) => self.handle_text(text),
             }
         }
 
+        self.close_from(0);
         self.finalize_current_slide();
 
         if self.slides.is_empty() {
@@ -662,349 +747,502 @@ impl HtmlSlideParser {
         Ok(std::mem::take(&mut self.slides))
     }
 
-    fn is_inside_skip_tag(&self) -> bool {
-        self.tag_stack.iter().any(|t| SKIP_TAGS.contains(&t.as_str()))
+    /// Depth of the innermost open element among `names`, unless one of `barriers` is in between
+    fn find_open(&self, names: &[&str], barriers: &[&str]) -> Option<usize> {
+        for (depth, element) in self.stack.iter().enumerate().rev() {
+            if names.contains(&element.name.as_str()) {
+                return Some(depth);
+            }
+            if barriers.contains(&element.name.as_str()) {
+                return None;
+            }
+        }
+        None
+    }
+
+    /// End all elements from this depth on, innermost first
+    fn close_from(&mut self, depth: usize) {
+        while self.stack.len() > depth {
+            self.end_element();
+        }
+    }
+
+    /// Text that is not shown on a slide by itself: of a heading, a cell or a quote
+    fn in_inset(&self) -> bool {
+        self.heading_at.is_some() || self.cell.is_some() || self.quote_depth > 0
     }
 
     fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
-        if self.is_inside_skip_tag() {
+        if VOID_TAGS.contains(&name) {
+            if self.skip_from.is_none() {
+                self.handle_void_tag(name, attrs);
+            }
             return;
         }
 
-        // Push style for this element (inherits from parent). Skip void tags.
-        if !VOID_TAGS.contains(&name) {
-            let parent = self.style_stack.last().cloned().unwrap_or_default();
-            let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
-                parent.merge(&InlineStyle::parse(&style_attr.1))
-            } else {
-                parent
-            };
-            self.style_stack.push(style);
+        let mut live = self.skip_from.is_none();
+        if live && self.code.is_none() {
+            for (openers, ended, barriers) in IMPLIED_ENDS {
+                if openers.contains(&name) {
+                    while let Some(depth) = self.find_open(ended, barriers) {
+                        self.close_from(depth);
+                    }
+                }
+            }
+            if BLOCK_TAGS.contains(&name) {
+                if let Some(depth) = self.find_open(&["p"], TABLE_TAGS) {
+                    self.close_from(depth);
+                }
+                if HEADING_TAGS.contains(&name)
+                    && self.stack.last().is_some_and(|e| HEADING_TAGS.contains(&e.name.as_str()))
+                {
+                    self.close_from(self.stack.len() - 1);
+                }
+                if name == "table" && self.table_depth > 0 && self.cell.is_none()
+                    && let Some(depth) = self.find_open(&["table"], &[])
+                {
+                    self.close_from(depth);
+                }
+                // A nested list goes on with the text of its item
+                if !(matches!(name, "ul" | "ol" | "li") && self.list_depth > 0) {
+                    self.flush_text();
+                }
+            }
+        }
+
+        let parent = self.stack.last().map(|e| e.style.clone()).unwrap_or_default();
+        let style = match attrs.iter().find(|(k, _)| k == "style") {
+            Some((_, style)) => parent.merge(&InlineStyle::parse(style)),
+            None => parent,
+        };
+
+        if live && SKIP_TAGS.contains(&name) {
+            self.skip_from = Some(self.stack.len());
+        } else if live {
+            live = self.code.is_none() && self.start_element(name);
         }
+        self.stack.push(OpenElement { name: name.to_string(), style, live });
+    }
 
+    /// Let an element take effect; returns whether its end has one as well
+    fn start_element(&mut self, name: &str) -> bool {
         match name {
             "h1" => {
-                self.flush_text_buffer();
+                if self.in_inset() {
+                    return false;
+                }
                 self.finalize_current_slide();
+                self.heading_at = Some(self.stack.len());
             }
             "h2" | "h3" | "h4" | "h5" | "h6" => {
-                self.flush_text_buffer();
+                if self.in_inset() {
+                    return false;
+                }
+                self.heading_at = Some(self.stack.len());
             }
-            "p" | "div" | "article" | "section" | "main" | "li" => {}
             "pre" => {
-                self.in_code = true;
-                self.code_content.clear();
+                if self.heading_at.is_some() {
+                    return false;
+                }
+                self.code = Some(String::new());
             }
             "table" => {
-                self.in_table = true;
-                self.table_rows.clear();
+                if self.heading_at.is_some() {
+                    return false;
+                }
+                self.table_depth += 1;
+            }
+            "td" | "th" => {
+                if self.table_depth != 1 || self.heading_at.is_some() {
+                    return false;
+                }
+                self.cell = Some(String::new());
             }
+            "tr" => return self.table_depth == 1 && self.cell.is_none(),
             "blockquote" => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                if self.heading_at.is_some() || self.cell.is_some() {
+                    return false;
+                }
+                self.quote_depth += 1;
             }
             "ul" | "ol" => {
-                self.in_list = true;
+                if self.in_inset() {
+                    return false;
+                }
+                self.list_depth += 1;
                 self.list_items.clear();
             }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
-            }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = true;
-            }
-            "title" => {}
+            "li" => return self.list_depth > 0 && !self.in_inset(),
+            "strong" | "b" => self.bold += 1,
+            "em" | "i" => self.italic += 1,
+            _ => {}
+        }
+        true
+    }
+
+    fn handle_void_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        match name {
             "img" => {
                 if self.options.include_images {
-                    let alt = attrs.iter().find(|(k, _)| k == "alt").map(|(_, v)| v.as_str()).unwrap_or("");
-                    let src = attrs.iter().find(|(k, _)| k == "src").map(|(_, v)| v.as_str()).unwrap_or("");
-
+                    let attr = |name| attrs.iter().find(|(k, _)| k == name).map(|(_, v)| v.clone()).unwrap_or_default();
+                    let src = attr("src");
                     if !src.is_empty() {
-                        // Try to download and embed the actual image
-                        if let Some(image) = self.load_image(src, alt) {
-                            if let Some(ref mut slide) = self.current_slide {
-                                slide.images.push(image);
-                            } else {
-                                let mut slide = SlideContent::new("Image");
-                                slide.images.push(image);
-                                self.current_slide = Some(slide);
-                            }
-                        } else {
-                            // Fallback to placeholder if image loading fails
-                            let label = if alt.is_empty() { src } else { alt };
-                            self.add_paragraph(&format!("[Image: {}]", label));
-                        }
+                        self.pending_images.push((src, attr("alt")));
+                        self.flush_images();
                     }
                 }
             }
-            "a" => {
-                // Handle hyperlinks - just mark that we're inside a link
-                // The actual link text will be handled in text processing
-                if let Some(href) = attrs.iter().find(|(k, _)| k == "href").map(|(_, v)| v.as_str()) {
-                    // Store the current href for later use
-                    self.current_href = Some(href.to_string());
+            "br" => self.handle_line_break(),
+            "hr" if self.code.is_none() => {
+                if let Some(depth) = self.find_open(&["p"], TABLE_TAGS) {
+                    self.close_from(depth);
+                }
+                self.flush_text();
+                if !self.in_inset() {
+                    self.finalize_current_slide();
                 }
-            }
-            "br" => {
-                self.text_buffer.push('\n');
-            }
-            "hr" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
             }
             _ => {}
         }
     }
 
-    fn handle_close_tag(&mut self, name: &str) {
-        if self.is_inside_skip_tag() {
-            return;
+    fn handle_line_break(&mut self) {
+        match self.code {
+            Some(ref mut code) => code.push('\n'),
+            None => self.push_run("\n"),
         }
+    }
 
-        match name {
-            "h1" => {
-                let title = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if self.presentation_title.is_none() && !title.is_empty() {
-                    self.presentation_title = Some(title.clone());
-                }
-                let slide_title = if title.is_empty() { "Slide".to_string() } else { title };
-                let mut slide = SlideContent::new(&slide_title);
-                // Apply title-level styles from active style
-                if let Some(s) = self.active_style() {
-                    if let Some(ref c) = s.color { slide = slide.title_color(c); }
-                    if let Some(sz) = s.font_size { slide = slide.title_size(sz); }
-                    if let Some(ref fw) = s.font_weight && is_font_weight_bold(fw) { slide = slide.title_bold(true); }
-                    if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
-                    if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
-                }
-                self.current_slide = Some(slide);
-            }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_formatted_text(&format!("**{}**", text));
-                }
-            }
-            "p" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
+    fn handle_close_tag(&mut self, name: &str) {
+        let barriers: &[&str] = match name {
+            "table" => &[],
+            _ if TABLE_TAGS.contains(&name) => &["table"],
+            _ => &["table", "caption", "td", "th"],
+        };
+        if HEADING_TAGS.contains(&name) {
+            if let Some(depth) = self.find_open(HEADING_TAGS, barriers) {
+                self.close_from(depth);
             }
-            "div" | "article" | "section" | "main" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
+        } else if let Some(depth) = self.find_open(&[name], barriers) {
+            let block = BLOCK_TAGS.contains(&name) || SKIP_TAGS.contains(&name);
+            let crossing = |e: &OpenElement| BLOCK_TAGS.contains(&e.name.as_str());
+            if !block && self.stack[depth + 1..].iter().any(crossing) {
+                // Its end does not end the blocks inside it
+                let element = self.stack.remove(depth);
+                self.undo_inline(&element);
+                for at in [&mut self.skip_from, &mut self.heading_at].into_iter().flatten() {
+                    if *at > depth {
+                        *at -= 1;
+                    }
                 }
+            } else {
+                self.close_from(depth);
             }
-            "li" => {
-                let item = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !item.is_empty() {
-                    let item_style = self.active_style().and_then(|s| s.to_bullet_format());
-                    self.list_items.push((item, item_style));
-                }
+        }
+    }
+
+    /// The end of an element in a line of text
+    fn undo_inline(&mut self, element: &OpenElement) {
+        if element.live {
+            match element.name.as_str() {
+                "strong" | "b" => self.bold -= 1,
+                "em" | "i" => self.italic -= 1,
+                _ => {}
             }
-            "ul" | "ol" => {
-                self.flush_list_items();
-                self.in_list = false;
+        }
+    }
+
+    /// End the innermost open element
+    fn end_element(&mut self) {
+        let depth = self.stack.len() - 1;
+        let (name, live) = (self.stack[depth].name.clone(), self.stack[depth].live);
+
+        if let Some(from) = self.skip_from {
+            if depth == from {
+                self.skip_from = None;
             }
-            "pre" => {
-                self.in_code = false;
+        } else if live {
+            if name == "pre" {
                 self.flush_code_block();
+            } else if self.heading_at == Some(depth) {
+                self.flush_heading(&name);
+            } else if name == "li" {
+                self.flush_list_item();
+            } else if BLOCK_TAGS.contains(&name.as_str()) {
+                self.flush_text();
             }
-            "table" => {
-                self.in_table = false;
-                self.flush_table();
-            }
-            "blockquote" => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
-            }
-            "th" | "td" => {
-                let cell = std::mem::take(&mut self.current_cell).trim().to_string();
-                self.current_row.push(cell);
-            }
-            "tr" => {
-                if !self.current_row.is_empty() {
-                    self.table_rows.push(std::mem::take(&mut self.current_row));
-                    self.current_row = Vec::new();
+            match name.as_str() {
+                "table" => {
+                    self.table_depth -= 1;
+                    if self.table_depth == 0 {
+                        self.end_row();
+                        self.flush_table();
+                    }
                 }
+                "td" | "th" => {
+                    let cell = self.cell.take().unwrap_or_default();
+                    self.current_row.push(cell);
+                }
+                "tr" => self.end_row(),
+                "blockquote" => {
+                    self.quote_depth -= 1;
+                    if self.quote_depth == 0 {
+                        self.flush_blockquote();
+                    }
+                }
+                "ul" | "ol" => {
+                    self.flush_list_items();
+                    self.list_depth -= 1;
+                }
+                _ => {}
             }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
-            }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = false;
-            }
-            "a" => {
-                // When closing an anchor tag, we have the link text in the buffer
-                // and the href in current_href. For now, we'll just clear the href
-                // since PowerPoint hyperlink support requires more complex XML handling
-                self.current_href = None;
+            if BLOCK_TAGS.contains(&name.as_str()) {
+                self.flush_images();
             }
-            _ => {}
+        } else if self.code.is_none() && BLOCK_TAGS.contains(&name.as_str()) {
+            self.flush_text();
         }
 
-        // Pop style stack for non-void tags (mirrors push in handle_open_tag)
-        if !VOID_TAGS.contains(&name) {
-            self.style_stack.pop();
+        if let Some(element) = self.stack.pop() {
+            self.undo_inline(&element);
+        }
+    }
+
+    fn end_row(&mut self) {
+        if !self.current_row.is_empty() {
+            self.table_rows.push(std::mem::take(&mut self.current_row));
         }
     }
 
     fn handle_text(&mut self, text: &str) {
-        if self.is_inside_skip_tag() {
+        if self.skip_from.is_some() {
             return;
         }
 
-        if self.in_code {
-            self.code_content.push_str(text);
-        } else if self.in_table {
-            self.current_cell.push_str(text);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(text);
+        if let Some(ref mut code) = self.code {
+            code.push_str(text);
         } else {
-            self.text_buffer.push_str(text);
+            // White space between blocks is not text
+            let blank = |text: &str| text.chars().all(is_html_space);
+            let spaced = self.runs.last().is_none_or(|r| r.text.ends_with(is_html_space));
+            if !(spaced && blank(text)) {
+                self.push_run(text);
+            }
         }
     }
 
-    fn add_formatted_text(&mut self, text: &str) {
-        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+    fn push_run(&mut self, text: &str) {
+        self.runs.push(TextRun {
+            text: text.to_string(),
+            bold: self.bold > 0,
+            italic: self.italic > 0,
+        });
+    }
+
+    /// Take the current text, with marks of emphasis when asked
+    fn take_text(&mut self, marks: bool) -> String {
+        let runs = std::mem::take(&mut self.runs);
+        if !marks {
+            return runs.iter().map(|r| r.text.as_str()).collect::<String>().trim().to_string();
+        }
+
+        // Marks stand next to words
+        let mut out = String::new();
+        let mut space = String::new();
+        let (mut bold, mut italic) = (false, false);
+        for run in &runs {
+            for c in run.text.chars() {
+                if c.is_whitespace() {
+                    space.push(c);
+                    continue;
+                }
+                if italic && (!run.italic || run.bold != bold) {
+                    out.push('*');
+                    italic = false;
+                }
+                if bold && !run.bold {
+                    out.push_str("**");
+                }
+                out.push_str(&std::mem::take(&mut space));
+                if run.bold && !bold {
+                    out.push_str("**");
+                }
+                bold = run.bold;
+                if run.italic && !italic {
+                    out.push('*');
+                    italic = true;
+                }
+                out.push(c);
             }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
         }
+        if italic {
+            out.push('*');
+        }
+        if bold {
+            out.push_str("**");
+        }
+        out.trim().to_string()
     }
 
-    fn add_paragraph(&mut self, text: &str) {
-        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            if slide.content.len() < self.options.max_bullets {
-                let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-                if let Some(ref f) = fmt {
-                    bp = bp.with_format(f.clone());
+    /// The end of a line of text: it goes where its block is
+    fn flush_text(&mut self) {
+        if self.heading_at.is_some() {
+            self.push_run(" ");
+            return;
+        }
+        let plain = self.cell.is_some() || self.quote_depth > 0;
+        let text = self.take_text(!plain);
+        if !text.is_empty() {
+            let (inset, separator) = match self.cell {
+                Some(ref mut cell) => (Some(cell), ' '),
+                None if self.quote_depth > 0 => (Some(&mut self.quote_text), '\n'),
+                None => (None, ' '),
+            };
+            match inset {
+                Some(inset) => {
+                    if !inset.is_empty() {
+                        inset.push(separator);
+                    }
+                    inset.push_str(&text);
                 }
-                slide.content.push(text.to_string());
-                slide.bullets.push(bp);
+                None => self.add_paragraph(&text),
             }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Overview".to_string());
-            let mut slide = SlideContent::new(&title);
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+        }
+        self.flush_images();
+    }
+
+    fn flush_heading(&mut self, name: &str) {
+        let text = self.take_text(false);
+        self.heading_at = None;
+        if name != "h1" {
+            if !text.is_empty() {
+                self.flush_list_items();
+                let fmt = self.active_style().and_then(|s| s.to_bullet_format());
+                self.add_bullet(&format!("**{}**", text), "Slide", fmt);
             }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
+            return;
+        }
+
+        if self.presentation_title.is_none() && !text.is_empty() {
+            self.presentation_title = Some(text.clone());
+        }
+        let mut slide = SlideContent::new(if text.is_empty() { "Slide" } else { &text });
+        // Apply title-level styles from active style
+        if let Some(s) = self.active_style() {
+            if let Some(ref c) = s.color { slide = slide.title_color(c); }
+            if let Some(sz) = s.font_size { slide = slide.title_size(sz); }
+            if let Some(ref fw) = s.font_weight && is_font_weight_bold(fw) { slide = slide.title_bold(true); }
+            if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
+            if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
         }
+        self.current_slide = Some(slide);
     }
 
-    fn flush_text_buffer(&mut self) {
-        let text = std::mem::take(&mut self.text_buffer);
-        let trimmed = text.trim().to_string();
-        if !trimmed.is_empty() {
-            self.add_paragraph(&trimmed);
+    /// The title of a slide for content that follows no heading
+    fn fallback_title(&self, default: &str) -> String {
+        self.presentation_title.clone().unwrap_or_else(|| default.to_string())
+    }
+
+    fn slide_or_new(&mut self, title: &str) -> &mut SlideContent {
+        self.current_slide.get_or_insert_with(|| SlideContent::new(title))
+    }
+
+    /// The end of a list item
+    fn flush_list_item(&mut self) {
+        let item = self.take_text(true);
+        if !item.is_empty() {
+            let style = self.active_style().and_then(|s| s.to_bullet_format());
+            self.list_items.push((item, style));
         }
     }
 
     fn flush_list_items(&mut self) {
-        let items = std::mem::take(&mut self.list_items);
-        if items.is_empty() {
-            return;
+        let title = self.fallback_title("Key Points");
+        for (item, style) in std::mem::take(&mut self.list_items) {
+            self.add_bullet(&item, &title, style);
         }
+    }
 
-        if let Some(ref mut slide) = self.current_slide {
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
+    fn add_bullet(&mut self, text: &str, title: &str, fmt: Option<BulletTextFormat>) {
+        let max_bullets = self.options.max_bullets;
+        let slide = self.slide_or_new(title);
+        if slide.content.len() < max_bullets {
+            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
+            if let Some(f) = fmt {
+                bp = bp.with_format(f);
             }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Key Points".to_string());
-            let mut slide = SlideContent::new(&title);
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
+            slide.content.push(text.to_string());
+            slide.bullets.push(bp);
+        }
+    }
+
+    fn add_paragraph(&mut self, text: &str) {
+        self.flush_list_items();
+        let title = self.fallback_title("Overview");
+        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
+        self.add_bullet(text, &title, fmt);
+    }
+
+    /// Pictures in a heading, cell or quote follow it
+    fn flush_images(&mut self) {
+        if self.in_inset() || self.code.is_some() {
+            return;
+        }
+        for (src, alt) in std::mem::take(&mut self.pending_images) {
+            // Try to download and embed the actual image
+            if let Some(image) = self.load_image(&src, &alt) {
+                self.slide_or_new("Image").images.push(image);
+            } else {
+                // Fallback to placeholder if image loading fails
+                let label = if alt.is_empty() { &src } else { &alt };
+                self.add_paragraph(&format!("[Image: {}]", label));
             }
-            self.current_slide = Some(slide);
         }
     }
 
     fn flush_table(&mut self) {
-        if !self.options.include_tables || self.table_rows.is_empty() {
+        let rows = std::mem::take(&mut self.table_rows);
+        if !self.options.include_tables || rows.is_empty() {
             return;
         }
 
-        let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.table = Some(table);
-            slide.has_table = true;
-        } else {
-            let mut slide = SlideContent::new("Data Table");
-            slide.table = Some(table);
-            slide.has_table = true;
-            self.current_slide = Some(slide);
+        // A slide has one table: another one continues on the next slide
+        if let Some(slide) = self.current_slide.take_if(|s| s.table.is_some()) {
+            let title = format!("{} (continued)", slide.title);
+            self.slides.push(slide);
+            self.current_slide = Some(SlideContent::new(&title));
         }
+        let slide = self.slide_or_new("Data Table");
+        slide.table = Some(table);
+        slide.has_table = true;
     }
 
     fn flush_code_block(&mut self) {
-        if !self.options.include_code || self.code_content.is_empty() {
+        let code = self.code.take().unwrap_or_default();
+        // The line break after the tag is not part of the code
+        let code = code.strip_prefix("\r\n").or_else(|| code.strip_prefix('\n')).unwrap_or(&code).trim_end();
+        if !self.options.include_code || code.is_empty() {
             return;
         }
 
-        let code = std::mem::take(&mut self.code_content);
-        let code_block = CodeBlock::new(code.trim(), "text");
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.code_blocks.push(code_block);
-        } else {
-            let mut slide = SlideContent::new("Code");
-            slide.code_blocks.push(code_block);
-            self.current_slide = Some(slide);
-        }
+        let code_block = CodeBlock::new(code, "text");
+        self.slide_or_new("Code").code_blocks.push(code_block);
     }
 
     fn flush_blockquote(&mut self) {
-        let text = std::mem::take(&mut self.blockquote_text).trim().to_string();
+        let text = std::mem::take(&mut self.quote_text);
         if text.is_empty() {
             return;
         }
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(text);
-        }
+        let title = self.fallback_title("Notes");
+        self.slide_or_new(&title).notes = Some(text);
     }
 
     fn finalize_current_slide(&mut self) {
-        self.flush_text_buffer();
+        self.flush_text();
         self.flush_list_items();
         if let Some(slide) = self.current_slide.take() {
             self.slides.push(slide);
-- 
2.43.0


From 867e6bc83739d25b38df1b0ac378d6fb2d20b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 47/77] fix: Mermaid diagrams show every node, link, label,
 message and section their source declares, in its order

---
 src/cli/markdown/mermaid/class_diagram.rs | 209 ++++++---
 src/cli/markdown/mermaid/er_diagram.rs    | 153 ++++---
 src/cli/markdown/mermaid/flowchart.rs     | 489 ++++++++++++++--------
 src/cli/markdown/mermaid/gantt.rs         |  51 +--
 src/cli/markdown/mermaid/gitgraph.rs      |  81 ++--
 src/cli/markdown/mermaid/journey.rs       |  62 +--
 src/cli/markdown/mermaid/mindmap.rs       |  80 +++-
 src/cli/markdown/mermaid/mod.rs           |  44 +-
 src/cli/markdown/mermaid/pie.rs           |  34 +-
 src/cli/markdown/mermaid/quadrant.rs      |  90 +++-
 src/cli/markdown/mermaid/sequence.rs      | 115 +++--
 src/cli/markdown/mermaid/state_diagram.rs | 112 +++--
 src/cli/markdown/mermaid/timeline.rs      |  54 ++-
 src/cli/markdown/mermaid/types.rs         |  22 +-
 src/cli/markdown/parser.rs                |  32 +-
 15 files changed, 1111 insertions(+), 517 deletions(-)

diff --git a/src/cli/markdown/mermaid/class_diagram.rs b/src/cli/markdown/mermaid/class_diagram.rs
index b5335bc..2e01b0c 100644
--- a/src/cli/markdown/mermaid/class_diagram.rs
+++ b/src/cli/markdown/mermaid/class_diagram.rs
@@ -1,22 +1,100 @@
 //! Class diagram parsing and rendering
 
 use super::types::DiagramElements;
+use super::{keyword, position, unquote};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+struct Class {
+    id: String,
+    name: String,
+    attrs: Vec<String>,
+    methods: Vec<String>,
+}
+
+impl Class {
+    fn add_member(&mut self, member: &str) {
+        if member.contains('(') {
+            self.methods.push(member.to_string());
+        } else if !member.is_empty() {
+            self.attrs.push(member.to_string());
+        }
+    }
+}
+
+/// The position of a class in the list, which it joins when it is new
+fn declare(classes: &mut Vec<Class>, text: &str) -> usize {
+    let text = text.split(":::").next().unwrap_or("").trim();
+    let (name, label) = match text.split_once('[') {
+        Some((name, label)) => (name.trim(), Some(label.trim_end_matches(']'))),
+        None => (text, None),
+    };
+    let id = name.split('~').next().unwrap_or(name).trim_matches('`');
+    let index = classes.iter().position(|c| c.id == id).unwrap_or_else(|| {
+        classes.push(Class {
+            id: id.to_string(),
+            name: id.to_string(),
+            attrs: Vec::new(),
+            methods: Vec::new(),
+        });
+        classes.len() - 1
+    });
+    if let Some(label) = label {
+        classes[index].name = unquote(label).to_string();
+    } else if name.contains('~') {
+        classes[index].name = name.to_string();
+    }
+    index
+}
+
+/// What comes before and after the colon of a line, if it has one
+fn split_label(line: &str) -> Option<(&str, &str)> {
+    let (position, _) = line.match_indices(':').find(|(i, _)| {
+        // A class is given with three colons
+        !line[..*i].ends_with(':') && !line[i + 1..].starts_with(':')
+    })?;
+    Some((line[..position].trim(), line[position + 1..].trim()))
+}
+
+/// Parse a relationship: `A <|-- B : label`, with cardinalities in quotes
+fn parse_relationship(line: &str) -> Option<(&str, &str, &str)> {
+    let (classes, label) = split_label(line).unwrap_or((line, ""));
+    let middle = classes.find("--").or_else(|| classes.find(".."))?;
+    let (from, link) = classes.split_at(middle);
+    let to = link.trim_start_matches(['-', '.']);
+    // The ends of the link; an o is one only apart from the name
+    let from = ["<|", "<", "*", " o", "()"]
+        .iter()
+        .find_map(|end| from.strip_suffix(end))
+        .unwrap_or(from);
+    let to = ["|>", ">", "*", "o ", "()"]
+        .iter()
+        .find_map(|end| to.strip_prefix(end))
+        .unwrap_or(to);
+    // Cardinalities
+    let from = match from.trim().strip_suffix('"') {
+        Some(quoted) => quoted.rsplit_once('"')?.0,
+        None => from,
+    };
+    let to = match to.trim().strip_prefix('"') {
+        Some(quoted) => quoted.split_once('"')?.1,
+        None => to,
+    };
+    let (from, to) = (from.trim(), to.trim());
+    (!from.is_empty() && !to.is_empty()).then_some((from, to, label))
+}
+
 /// Generate shapes and connectors for a class diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut classes: Vec<(String, Vec<String>, Vec<String>)> = Vec::new();
-    let mut current_class = String::new();
-    let mut current_attrs: Vec<String> = Vec::new();
-    let mut current_methods: Vec<String> = Vec::new();
-    let mut in_class = false;
+    let mut classes: Vec<Class> = Vec::new();
+    // The class whose members are being listed
+    let mut current_class: Option<usize> = None;
     let mut relationships: Vec<(String, String, String)> = Vec::new();
 
     for line in code.lines().skip(1) {
@@ -25,50 +103,44 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.starts_with("class ") && line.contains('{') {
-            current_class = line
-                .strip_prefix("class ")
-                .unwrap_or("")
-                .split('{')
-                .next()
-                .unwrap_or("")
-                .trim()
-                .to_string();
-            in_class = true;
-            current_attrs.clear();
-            current_methods.clear();
-        } else if line == "}" && in_class {
-            classes.push((
-                current_class.clone(),
-                current_attrs.clone(),
-                current_methods.clone(),
-            ));
-            in_class = false;
-        } else if in_class {
-            if line.contains('(') {
-                current_methods.push(line.to_string());
-            } else if !line.is_empty() {
-                current_attrs.push(line.to_string());
+        if let Some(index) = current_class {
+            let (member, ends) = match line.strip_suffix('}') {
+                Some(member) if !member.contains('{') => (member.trim(), true),
+                _ => (line, false),
+            };
+            classes[index].add_member(member);
+            if ends {
+                current_class = None;
             }
-        } else if line.contains("<|--") || line.contains("-->") || line.contains("--") {
-            let rel_type = if line.contains("<|--") {
-                "extends"
-            } else if line.contains("-->") {
-                "uses"
-            } else {
-                "associates"
+        } else if let Some(rest) = keyword(line, "class") {
+            let (name, body) = match rest.split_once('{') {
+                Some((name, body)) => (name, Some(body.trim())),
+                None => (rest, None),
             };
-
-            let parts: Vec<&str> = line
-                .split(|c| c == '<' || c == '|' || c == '-' || c == '>')
-                .collect();
-            let parts: Vec<&str> = parts.into_iter().filter(|s| !s.is_empty()).collect();
-            if parts.len() >= 2 {
-                relationships.push((
-                    parts[0].trim().to_string(),
-                    parts[parts.len() - 1].trim().to_string(),
-                    rel_type.to_string(),
-                ));
+            let index = declare(&mut classes, name);
+            match body {
+                Some(body) => match body.strip_suffix('}') {
+                    Some(member) => classes[index].add_member(member.trim()),
+                    None => {
+                        classes[index].add_member(body);
+                        current_class = Some(index);
+                    }
+                },
+                None => {}
+            }
+        } else if let Some((from, to, label)) = parse_relationship(line) {
+            let from = declare(&mut classes, from);
+            let to = declare(&mut classes, to);
+            relationships.push((
+                classes[from].id.clone(),
+                classes[to].id.clone(),
+                label.to_string(),
+            ));
+        } else if let Some((name, member)) = split_label(line) {
+            // A member outside the body: A : +name
+            if !name.trim().contains(char::is_whitespace) {
+                let index = declare(&mut classes, name);
+                classes[index].add_member(member.trim());
             }
         }
     }
@@ -85,11 +157,17 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let mut class_shape_ids: HashMap<String, u32> = HashMap::new();
     let mut shape_id = 10u32;
 
-    for (i, (class_name, attrs, methods)) in classes.iter().enumerate() {
+    for (i, class) in classes.iter().enumerate() {
+        let Class {
+            id,
+            name: class_name,
+            attrs,
+            methods,
+        } = class;
         let x = start_x + (i as u32 % 3) * h_spacing;
-        let y = start_y + (i as u32 / 3) * 2_000_000;
-        class_positions.insert(class_name.clone(), (x, y));
-        class_shape_ids.insert(class_name.clone(), shape_id);
+        let y = position(start_y, i / 3, 2_000_000);
+        class_positions.insert(id.clone(), (x, y));
+        class_shape_ids.insert(id.clone(), shape_id);
 
         // Class header (this is the shape connectors attach to)
         let header = Shape::new(ShapeType::Rectangle, x, y, class_width, header_height)
@@ -106,7 +184,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         } else {
             attrs.join("\n")
         };
-        let attrs_height = (attrs.len().max(1) as u32) * member_height;
+        let attrs_height = position(0, attrs.len().max(1), member_height);
         let attrs_shape = Shape::new(
             ShapeType::Rectangle,
             x,
@@ -127,7 +205,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         } else {
             methods.join("\n")
         };
-        let methods_height = (methods.len().max(1) as u32) * member_height;
+        let methods_height = position(0, methods.len().max(1), member_height);
         let methods_shape = Shape::new(
             ShapeType::Rectangle,
             x,
@@ -144,7 +222,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     // Create connectors with shape anchoring
-    for (from, to, _rel_type) in &relationships {
+    for (from, to, label) in &relationships {
         if let (Some(&(from_x, from_y)), Some(&(to_x, to_y))) =
             (class_positions.get(from), class_positions.get(to))
         {
@@ -180,6 +258,29 @@ pub fn generate_elements(code: &str) -> DiagramElements {
                 connector = connector.connect_end(id, end_site);
             }
 
+            // Create label shape if label exists
+            if !label.is_empty() {
+                let label_width = 1_000_000u32;
+                let label_height = 250_000u32;
+                let mid_x = (from_x + to_x + class_width) / 2;
+                let mid_y = (from_y + to_y + header_height) / 2;
+
+                let label_shape = Shape::new(
+                    ShapeType::RoundedRectangle,
+                    mid_x.saturating_sub(label_width / 2),
+                    mid_y.saturating_sub(label_height / 2),
+                    label_width,
+                    label_height,
+                )
+                .with_id(shape_id)
+                .with_fill(ShapeFill::new("FFFFFF"))
+                .with_line(ShapeLine::new("2F5496", 1))
+                .with_text(label);
+
+                shapes.push(label_shape);
+                shape_id += 1;
+            }
+
             connectors.push(connector);
         }
     }
diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..189891f 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -1,20 +1,72 @@
 //! ER diagram parsing and rendering
 
 use super::types::DiagramElements;
+use super::{position, unquote};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
-use std::collections::HashMap;
+
+struct Entity {
+    id: String,
+    name: String,
+    attrs: Vec<String>,
+}
+
+/// The position of an entity in the list, which it joins when it is new:
+/// `NAME`, `"NAME"` or `id[NAME]`
+fn declare(entities: &mut Vec<Entity>, text: &str) -> usize {
+    let text = text.split(":::").next().unwrap_or("").trim();
+    let (id, name) = match text.strip_suffix(']').and_then(|t| t.split_once('[')) {
+        Some((id, name)) => (unquote(id), Some(unquote(name))),
+        None => (unquote(text), None),
+    };
+    let index = entities.iter().position(|e| e.id == id).unwrap_or_else(|| {
+        entities.push(Entity {
+            id: id.to_string(),
+            name: id.to_string(),
+            attrs: Vec::new(),
+        });
+        entities.len() - 1
+    });
+    if let Some(name) = name {
+        entities[index].name = name.to_string();
+    }
+    index
+}
+
+/// Parse a relationship: `CUSTOMER ||--o{ ORDER : places`
+fn parse_relationship(line: &str) -> Option<(&str, &str, String)> {
+    const LEFT: [&str; 4] = ["|o", "||", "}o", "}|"];
+    const RIGHT: [&str; 4] = ["o|", "||", "o{", "|{"];
+
+    for link in ["--", ".."] {
+        for (middle, _) in line.match_indices(link) {
+            let from = LEFT.iter().find_map(|c| line[..middle].strip_suffix(c));
+            let rest = &line[middle + link.len()..];
+            let to = RIGHT.iter().find_map(|c| rest.strip_prefix(c));
+            if let (Some(from), Some(to)) = (from, to) {
+                // Extract relationship label after colon
+                let (to, label) = to.split_once(':').unwrap_or((to, ""));
+                // Remove quotes if present
+                let label = label.trim().trim_matches('"').trim_matches('\'');
+                let (from, to) = (from.trim(), to.trim());
+                return (!from.is_empty() && !to.is_empty()).then(|| (from, to, label.to_string()));
+            }
+        }
+    }
+    None
+}
 
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
-    let mut relationships: Vec<(String, String, String)> = Vec::new();
-    let mut current_entity = String::new();
+    let mut entities: Vec<Entity> = Vec::new();
+    let mut relationships: Vec<(usize, usize, String)> = Vec::new();
+    // The entity whose attributes are being listed
+    let mut current_entity: Option<usize> = None;
 
     for line in code.lines().skip(1) {
         let line = line.trim();
@@ -22,47 +74,35 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.contains("||") || line.contains("}|") || line.contains("|{") || line.contains("o{")
-        {
-            // Extract relationship label after colon
-            let (rel_part, label) = if let Some(colon_pos) = line.find(':') {
-                let label_part = line[colon_pos + 1..].trim();
-                // Remove quotes if present
-                let label = label_part.trim_matches('"').trim_matches('\'').to_string();
-                (&line[..colon_pos], label)
-            } else {
-                (line, String::new())
+        if let Some(index) = current_entity {
+            let (attr, ends) = match line.strip_suffix('}') {
+                Some(attr) => (attr.trim(), true),
+                None => (line, false),
             };
-
-            let parts: Vec<&str> = rel_part
-                .split(|c: char| c == '|' || c == '{' || c == '}' || c == 'o' || c == '-')
-                .collect();
-            let parts: Vec<&str> = parts
-                .into_iter()
-                .filter(|s| !s.is_empty() && s.chars().any(|c| c.is_alphabetic()))
-                .collect();
-            if parts.len() >= 2 {
-                let e1 = parts[0].trim().to_string();
-                let e2 = parts[parts.len() - 1].trim().to_string();
-                if !entities.contains_key(&e1) {
-                    entities.insert(e1.clone(), Vec::new());
-                }
-                if !entities.contains_key(&e2) {
-                    entities.insert(e2.clone(), Vec::new());
-                }
-                relationships.push((e1, e2, label));
+            if !attr.is_empty() {
+                entities[index].attrs.push(attr.to_string());
             }
-        } else if line.contains('{') {
-            current_entity = line.split('{').next().unwrap_or("").trim().to_string();
-            if !entities.contains_key(&current_entity) {
-                entities.insert(current_entity.clone(), Vec::new());
+            if ends {
+                current_entity = None;
             }
-        } else if line == "}" {
-            current_entity.clear();
-        } else if !current_entity.is_empty() && !line.is_empty() {
-            if let Some(attrs) = entities.get_mut(&current_entity) {
-                attrs.push(line.to_string());
+        } else if let Some((e1, e2, label)) = parse_relationship(line) {
+            let e1 = declare(&mut entities, e1);
+            let e2 = declare(&mut entities, e2);
+            relationships.push((e1, e2, label));
+        } else if let Some((name, body)) = line.split_once('{') {
+            let index = declare(&mut entities, name);
+            match body.trim().strip_suffix('}') {
+                Some("") => {}
+                Some(attr) => entities[index].attrs.push(attr.trim().to_string()),
+                None => current_entity = Some(index),
             }
+        } else if line.starts_with('"')
+            || line.contains('[')
+            || line
+                .chars()
+                .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
+        {
+            declare(&mut entities, line);
         }
     }
 
@@ -75,26 +115,26 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let h_spacing = 2_800_000u32;
     let v_spacing = 2_500_000u32;
 
-    let mut entity_positions: HashMap<String, (u32, u32)> = HashMap::new();
-    let mut entity_shape_ids: HashMap<String, u32> = HashMap::new();
+    // Position and shape ID of each entity
+    let mut entity_places: Vec<(u32, u32, u32)> = Vec::new();
     let mut shape_id = 10u32;
 
-    for (i, (entity_name, attrs)) in entities.iter().enumerate() {
+    for (i, entity) in entities.iter().enumerate() {
+        let attrs = &entity.attrs;
         let x = start_x + (i as u32 % 3) * h_spacing;
-        let y = start_y + (i as u32 / 3) * v_spacing;
-        entity_positions.insert(entity_name.clone(), (x, y));
-        entity_shape_ids.insert(entity_name.clone(), shape_id);
+        let y = position(start_y, i / 3, v_spacing);
+        entity_places.push((x, y, shape_id));
 
         let header = Shape::new(ShapeType::Rectangle, x, y, entity_width, header_height)
             .with_id(shape_id)
             .with_fill(ShapeFill::new("C2185B"))
             .with_line(ShapeLine::new("880E4F", 2))
-            .with_text(entity_name);
+            .with_text(&entity.name);
         shapes.push(header);
         shape_id += 1;
 
         let attrs_text = attrs.join("\n");
-        let attrs_box_height = (attrs.len().max(1) as u32) * attr_height;
+        let attrs_box_height = position(0, attrs.len().max(1), attr_height);
         let attrs_shape = Shape::new(
             ShapeType::Rectangle,
             x,
@@ -111,12 +151,9 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     for (e1, e2, label) in &relationships {
-        if let (Some(&(x1, y1)), Some(&(x2, y2))) =
-            (entity_positions.get(e1), entity_positions.get(e2))
+        if let (Some(&(x1, y1, e1_shape_id)), Some(&(x2, y2, e2_shape_id))) =
+            (entity_places.get(*e1), entity_places.get(*e2))
         {
-            let e1_shape_id = entity_shape_ids.get(e1).copied();
-            let e2_shape_id = entity_shape_ids.get(e2).copied();
-
             // Smart connection site selection
             let (start_site, end_site) = if x1 < x2 {
                 (ConnectionSite::Right, ConnectionSite::Left)
@@ -139,12 +176,8 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             .with_end_arrow(ArrowType::Diamond);
 
             // Anchor to shapes
-            if let Some(id) = e1_shape_id {
-                connector = connector.connect_start(id, start_site);
-            }
-            if let Some(id) = e2_shape_id {
-                connector = connector.connect_end(id, end_site);
-            }
+            connector = connector.connect_start(e1_shape_id, start_site);
+            connector = connector.connect_end(e2_shape_id, end_site);
 
             // Create label shape if label exists
             if !label.is_empty() {
diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..16fc63f 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -1,6 +1,7 @@
 //! Flowchart diagram parsing and rendering
 
 use super::types::{DiagramBounds, *};
+use super::{keyword, position, unquote};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType, LineDash,
 };
@@ -25,173 +26,285 @@ fn parse_direction(first_line: &str) -> FlowDirection {
 pub fn parse(code: &str) -> Flowchart {
     let mut lines = code.lines();
     let first_line = lines.next().unwrap_or("");
-    let direction = parse_direction(first_line);
-
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
-    let mut connections: Vec<FlowConnection> = Vec::new();
-    let mut subgraphs: Vec<Subgraph> = Vec::new();
-    let mut current_subgraph: Option<Subgraph> = None;
+    // The first line names the kind and direction, and statements may follow on it
+    let (first_line, rest) = first_line.split_once(';').unwrap_or((first_line, ""));
+
+    let mut flowchart = Flowchart {
+        direction: parse_direction(first_line),
+        nodes: Vec::new(),
+        connections: Vec::new(),
+        subgraphs: Vec::new(),
+    };
+    // Subgraphs that have not ended yet, innermost last
+    let mut open_subgraphs: Vec<usize> = Vec::new();
 
-    for line in lines {
+    for line in std::iter::once(rest).chain(lines) {
         let line = line.trim();
         if line.is_empty() || line.starts_with("%%") {
             continue;
         }
 
         // Handle subgraph start
-        if line.starts_with("subgraph") {
-            let name = line
-                .strip_prefix("subgraph")
-                .unwrap_or("")
-                .trim()
-                .to_string();
-            current_subgraph = Some(Subgraph {
-                name,
+        if let Some(name) = keyword(line, "subgraph") {
+            open_subgraphs.push(flowchart.subgraphs.len());
+            flowchart.subgraphs.push(Subgraph {
+                name: subgraph_name(name),
                 nodes: Vec::new(),
             });
             continue;
         }
 
         // Handle subgraph end
-        if line == "end" {
-            if let Some(sg) = current_subgraph.take() {
-                subgraphs.push(sg);
-            }
+        if line.trim_end_matches(';').trim_end() == "end" {
+            open_subgraphs.pop();
             continue;
         }
 
-        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text]
-        if let Some((from_part, rest)) = split_connection(line) {
-            let (arrow_type, to_part) = parse_arrow_and_rest(&rest);
-
-            // Parse from node
-            let (from_id, from_node) = parse_node_def(&from_part);
-            if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&from_id) {
-                        sg.nodes.push(from_id.clone());
-                    }
-                }
-            }
+        // Lines about how the diagram looks
+        if [
+            "direction",
+            "classDef",
+            "class",
+            "style",
+            "linkStyle",
+            "click",
+        ]
+        .iter()
+        .any(|word| keyword(line, word).is_some_and(|rest| !rest.is_empty()))
+            && !keyword(line, "class").is_some_and(is_link)
+        {
+            continue;
+        }
 
-            // Parse to node (may have label on arrow)
-            let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
-            let (to_id, to_node) = parse_node_def(&to_part_clean);
-            if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&to_id) {
-                        sg.nodes.push(to_id.clone());
-                    }
-                }
-            }
+        parse_statements(line, &mut flowchart, open_subgraphs.last().copied());
+    }
 
-            connections.push(FlowConnection {
-                from: from_id,
-                to: to_id,
-                label: arrow_label,
-                arrow_type,
-            });
-        } else {
-            // Standalone node definition
-            let (id, node) = parse_node_def(line);
-            if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&id) {
-                        sg.nodes.push(id);
-                    }
+    flowchart
+}
+
+/// The name of a subgraph: `subgraph name`, `subgraph "name"` or `subgraph id [name]`
+fn subgraph_name(text: &str) -> String {
+    if let Some((_, rest)) = text.split_once('[') {
+        if let Some(name) = rest.strip_suffix(']') {
+            return unquote(name).to_string();
+        }
+    }
+    unquote(text).to_string()
+}
+
+/// Whether a text starts with a link
+fn is_link(text: &str) -> bool {
+    ["--", "==", "-.", "->"].iter().any(|l| text.starts_with(l))
+}
+
+/// Parse the statements of a line: nodes, joined by links where there are any
+fn parse_statements(line: &str, flowchart: &mut Flowchart, subgraph: Option<usize>) {
+    let mut rest = line;
+    // What the next nodes are linked from, and how
+    let mut from: Vec<String> = Vec::new();
+    let mut link: Option<(ArrowStyle, Option<String>)> = None;
+
+    while !rest.is_empty() {
+        let mut group: Vec<String> = Vec::new();
+        loop {
+            let Some((definition, after)) = take_node(rest) else {
+                return;
+            };
+            let (id, Some(node)) = parse_node_def(definition) else {
+                return;
+            };
+            rest = after.trim_start();
+            let labelled = definition.len() > id.len();
+            group.push(id);
+            add_node(flowchart, node, labelled, subgraph);
+            match rest.strip_prefix('&') {
+                Some(after) => rest = after.trim_start(),
+                None => break,
+            }
+        }
+        if let Some((arrow_type, label)) = link.take() {
+            for a in &from {
+                for b in &group {
+                    flowchart.connections.push(FlowConnection {
+                        from: a.clone(),
+                        to: b.clone(),
+                        label: label.clone(),
+                        arrow_type,
+                    });
                 }
             }
         }
+        if let Some(after) = rest.strip_prefix(';') {
+            rest = after.trim_start();
+            from.clear();
+        } else if let Some((arrow_type, label, after)) = take_link(rest) {
+            rest = after.trim_start();
+            from = group;
+            link = Some((arrow_type, label));
+        } else {
+            return;
+        }
     }
+}
 
-    Flowchart {
-        direction,
-        nodes: nodes.into_values().collect(),
-        connections,
-        subgraphs,
+/// Record a node, or the label of one that is already known
+fn add_node(flowchart: &mut Flowchart, node: FlowNode, labelled: bool, subgraph: Option<usize>) {
+    let id = node.id.clone();
+    match flowchart.nodes.iter_mut().find(|n| n.id == id) {
+        Some(known) if labelled => *known = node,
+        Some(_) => {}
+        None => flowchart.nodes.push(node),
+    }
+    if let Some(index) = subgraph {
+        // A node is drawn in one subgraph only
+        if !flowchart.subgraphs.iter().any(|s| s.nodes.contains(&id)) {
+            flowchart.subgraphs[index].nodes.push(id);
+        }
     }
 }
 
-/// Split line at connection arrow
-fn split_connection(line: &str) -> Option<(String, String)> {
-    for arrow in ["==>", "-.->", "-->", "---", "->"] {
-        if let Some(pos) = line.find(arrow) {
-            let from = line[..pos].trim().to_string();
-            let rest = line[pos..].to_string();
-            return Some((from, rest));
+/// Take a link off the start of a text: its style, its label and what follows it
+fn take_link(s: &str) -> Option<(ArrowStyle, Option<String>, &str)> {
+    // An arrow head at the start of the link
+    let s = ["<", "x", "o"]
+        .iter()
+        .find_map(|head| s.strip_prefix(head).filter(|rest| is_link(rest)))
+        .unwrap_or(s);
+
+    let line_end = |s: &str| {
+        let end = s.find(|c| !matches!(c, '-' | '=' | '.')).unwrap_or(s.len());
+        let head = s[end..].chars().next();
+        let after_head = s[end..].chars().nth(1);
+        match head {
+            Some('>') => end + 1,
+            // A cross or a circle, and not the start of a name
+            Some('x' | 'o') if after_head.map_or(true, |c| c.is_whitespace() || c == '|') => {
+                end + 1
+            }
+            _ => end,
         }
+    };
+
+    if !is_link(s) {
+        return None;
     }
-    None
-}
+    let end = line_end(s);
+    let (line, mut rest) = s.split_at(end);
+    let (arrow_type, closing) = match &line[..2] {
+        "==" => (ArrowStyle::Thick, "=="),
+        "-." => (ArrowStyle::Dotted, ".-"),
+        _ if line.ends_with('-') => (ArrowStyle::Open, "--"),
+        _ => (ArrowStyle::Arrow, "--"),
+    };
 
-/// Parse arrow type and get the rest of the string
-fn parse_arrow_and_rest(s: &str) -> (ArrowStyle, String) {
-    if s.starts_with("==>") {
-        (ArrowStyle::Thick, s[3..].trim().to_string())
-    } else if s.starts_with("-.->") {
-        (ArrowStyle::Dotted, s[4..].trim().to_string())
-    } else if s.starts_with("-->") {
-        (ArrowStyle::Arrow, s[3..].trim().to_string())
-    } else if s.starts_with("---") {
-        (ArrowStyle::Open, s[3..].trim().to_string())
-    } else if s.starts_with("->") {
-        (ArrowStyle::Arrow, s[2..].trim().to_string())
-    } else {
-        (ArrowStyle::Arrow, s.to_string())
+    if matches!(line, "--" | "==" | "-.") {
+        // The label is written between two halves of the link
+        let middle = rest.find(closing)?;
+        let label = unquote(&rest[..middle]).to_string();
+        let second = &rest[middle..];
+        let end = line_end(second);
+        let arrow_type = match arrow_type {
+            ArrowStyle::Open if second[..end].ends_with(['>', 'x', 'o']) => ArrowStyle::Arrow,
+            other => other,
+        };
+        return Some((arrow_type, Some(label), &second[end..]));
     }
+
+    // The label follows the link, between bars
+    let mut label = None;
+    if let Some((text, after)) = rest
+        .trim_start()
+        .strip_prefix('|')
+        .and_then(|text| text.split_once('|'))
+    {
+        label = Some(unquote(text).to_string());
+        rest = after;
+    }
+    Some((arrow_type, label, rest))
 }
 
-/// Extract arrow label like |text|
-fn extract_arrow_label(s: &str) -> (String, Option<String>) {
-    if let Some(start) = s.find('|') {
-        if let Some(end) = s[start + 1..].find('|') {
-            let label = s[start + 1..start + 1 + end].to_string();
-            let rest = s[start + 2 + end..].trim().to_string();
-            return (rest, Some(label));
+/// Brackets around the label of a node, longer ones before those they start with
+const BRACKETS: [(&str, &str, NodeShape); 9] = [
+    ("(((", ")))", NodeShape::Circle),
+    ("((", "))", NodeShape::Circle),
+    ("([", "])", NodeShape::Stadium),
+    ("[(", ")]", NodeShape::RoundedRect),
+    ("[[", "]]", NodeShape::Rectangle),
+    ("{{", "}}", NodeShape::Hexagon),
+    ("[", "]", NodeShape::Rectangle),
+    ("(", ")", NodeShape::RoundedRect),
+    ("{", "}", NodeShape::Diamond),
+];
+
+/// Take a node definition off the start of a text: the definition and what follows it
+fn take_node(s: &str) -> Option<(&str, &str)> {
+    // The id ends where a label, a link or another statement starts
+    let mut end = s.len();
+    for (i, c) in s.char_indices() {
+        let next = s[i + c.len_utf8()..].chars().next();
+        let part_of_id = c.is_alphanumeric()
+            || c == '_'
+            || (matches!(c, '-' | '.' | '/')
+                && next.is_some_and(|n| n.is_alphanumeric() || n == '_'));
+        if !part_of_id {
+            end = i;
+            break;
         }
     }
-    (s.to_string(), None)
+    if end == 0 {
+        return None;
+    }
+
+    let label = s[end..].trim_start();
+    for (open, close, _) in BRACKETS {
+        let Some(inner) = label.strip_prefix(open) else {
+            continue;
+        };
+        // A quoted label may contain brackets
+        let quoted = inner
+            .strip_prefix('"')
+            .and_then(|text| text.find('"'))
+            .map_or(0, |end| end + 2);
+        if let Some(length) = inner[quoted..].find(close) {
+            end = s.len() - inner.len() + quoted + length + close.len();
+            break;
+        }
+    }
+    let (definition, mut rest) = s.split_at(end);
+
+    // A class given to the node
+    if let Some(class) = rest.strip_prefix(":::") {
+        let end = class
+            .find(|c: char| !c.is_alphanumeric() && c != '_')
+            .unwrap_or(class.len());
+        rest = &class[end..];
+    }
+    Some((definition, rest))
 }
 
 /// Parse a node definition like A[Text] or B(Text) or C{Text}
 fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
     let s = s.trim();
+    let (id, text) = s.split_at(s.find(['[', '(', '{']).unwrap_or(s.len()));
+    let id = id.trim().to_string();
+    if id.is_empty() {
+        return (s.to_string(), None);
+    }
 
     // Try different bracket types
-    for (open, close, shape) in [
-        ("((", "))", NodeShape::Circle),
-        ("([", "])", NodeShape::Stadium),
-        ("{{", "}}", NodeShape::Hexagon),
-        ("[", "]", NodeShape::Rectangle),
-        ("(", ")", NodeShape::RoundedRect),
-        ("{", "}", NodeShape::Diamond),
-    ] {
-        if let Some(start) = s.find(open) {
-            let id = s[..start].trim().to_string();
-            if let Some(end) = s[start + open.len()..].find(close) {
-                let label = s[start + open.len()..start + open.len() + end].to_string();
-                return (id.clone(), Some(FlowNode { id, label, shape }));
-            }
-        }
-    }
+    let labelled = BRACKETS.iter().find_map(|(open, close, shape)| {
+        let label = text.strip_prefix(open)?.strip_suffix(close)?;
+        Some((unquote(label), *shape))
+    });
 
     // Plain node ID without brackets
-    let id = s.to_string();
-    if !id.is_empty() && id.chars().all(|c| c.is_alphanumeric() || c == '_') {
-        return (
-            id.clone(),
-            Some(FlowNode {
-                id: id.clone(),
-                label: id,
-                shape: NodeShape::Rectangle,
-            }),
-        );
-    }
-
-    (s.to_string(), None)
+    let (label, shape) = labelled.unwrap_or((&id, NodeShape::Rectangle));
+    let node = FlowNode {
+        id: id.clone(),
+        label: label.to_string(),
+        shape,
+    };
+    (id, Some(node))
 }
 
 /// Generate shapes and connectors for a flowchart
@@ -200,7 +313,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
     let mut connectors = Vec::new();
     let node_count = flowchart.nodes.len();
 
-    if node_count == 0 {
+    if node_count == 0 && flowchart.subgraphs.is_empty() {
         return DiagramElements {
             shapes,
             connectors,
@@ -235,7 +348,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
         for (sg_idx, subgraph) in flowchart.subgraphs.iter().enumerate() {
             let sg_width = node_width + 400_000;
             let title_height = 250_000u32;
-            let sg_height = (subgraph.nodes.len() as u32) * v_spacing + 400_000 + title_height;
+            let sg_height = position(400_000 + title_height, subgraph.nodes.len(), v_spacing);
             let sg_x = subgraph_x;
             let sg_y = subgraph_start_y;
 
@@ -263,7 +376,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
             for (node_idx, node_id) in subgraph.nodes.iter().enumerate() {
                 if let Some(node) = flowchart.nodes.iter().find(|n| &n.id == node_id) {
                     let x = sg_x + 200_000;
-                    let y = sg_y + title_height + 200_000 + (node_idx as u32) * v_spacing;
+                    let y = position(sg_y + title_height + 200_000, node_idx, v_spacing);
 
                     node_positions.insert(node.id.clone(), (x, y));
                     node_shape_ids.insert(node.id.clone(), shape_id);
@@ -275,7 +388,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
                 }
             }
 
-            subgraph_x += sg_width + 600_000;
+            subgraph_x = position(subgraph_x, 1, sg_width + 600_000);
         }
 
         // Layout any nodes not in subgraphs
@@ -293,30 +406,33 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
                 element_bounds.push((x, y, node_width, node_height));
                 shape_id += 1;
 
-                orphan_y += v_spacing;
+                orphan_y = position(orphan_y, 1, v_spacing);
             }
         }
     } else {
         // Simple grid layout without subgraphs
         let start_x = 1_000_000u32;
         let start_y = 1_800_000u32;
-        let cols = if is_horizontal { node_count.min(5) } else { 1 };
+        let cols = if is_horizontal {
+            node_count.clamp(1, 5)
+        } else {
+            1
+        };
+        let rows = node_count.div_ceil(cols);
 
         for (i, node) in flowchart.nodes.iter().enumerate() {
-            let col = i % cols;
-            let row = i / cols;
+            let mut col = i % cols;
+            let mut row = i / cols;
+            match flowchart.direction {
+                FlowDirection::RightToLeft => col = cols - 1 - col,
+                FlowDirection::BottomToTop => row = rows - 1 - row,
+                _ => {}
+            }
 
-            let (x, y) = if is_horizontal {
-                (
-                    start_x + (col as u32) * h_spacing,
-                    start_y + (row as u32) * v_spacing,
-                )
-            } else {
-                (
-                    start_x + (col as u32) * h_spacing,
-                    start_y + (i as u32) * v_spacing,
-                )
-            };
+            let (x, y) = (
+                position(start_x, col, h_spacing),
+                position(start_y, row, v_spacing),
+            );
 
             node_positions.insert(node.id.clone(), (x, y));
             node_shape_ids.insert(node.id.clone(), shape_id);
@@ -338,36 +454,57 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
             let to_shape_id = node_shape_ids.get(&conn.to).copied();
 
             // Determine connection sites and positions based on relative positions
-            let (start_site, end_site, start_x, start_y, end_x, end_y) = if is_horizontal {
-                // Horizontal flow: connect Right -> Left
-                (
-                    ConnectionSite::Right,
-                    ConnectionSite::Left,
-                    from_x + node_width,
-                    from_y + node_height / 2,
-                    to_x,
-                    to_y + node_height / 2,
-                )
-            } else {
-                // Vertical flow: connect Bottom -> Top
-                (
-                    ConnectionSite::Bottom,
-                    ConnectionSite::Top,
-                    from_x + node_width / 2,
-                    from_y + node_height,
-                    to_x + node_width / 2,
-                    to_y,
-                )
-            };
+            let against = flowchart.subgraphs.is_empty();
+            let (start_site, end_site, start_x, start_y, end_x, end_y) =
+                if against && flowchart.direction == FlowDirection::RightToLeft {
+                    // Flow to the left: connect Left -> Right
+                    (
+                        ConnectionSite::Left,
+                        ConnectionSite::Right,
+                        from_x,
+                        from_y + node_height / 2,
+                        to_x + node_width,
+                        to_y + node_height / 2,
+                    )
+                } else if against && flowchart.direction == FlowDirection::BottomToTop {
+                    // Flow upwards: connect Top -> Bottom
+                    (
+                        ConnectionSite::Top,
+                        ConnectionSite::Bottom,
+                        from_x + node_width / 2,
+                        from_y,
+                        to_x + node_width / 2,
+                        to_y + node_height,
+                    )
+                } else if is_horizontal {
+                    // Horizontal flow: connect Right -> Left
+                    (
+                        ConnectionSite::Right,
+                        ConnectionSite::Left,
+                        from_x + node_width,
+                        from_y + node_height / 2,
+                        to_x,
+                        to_y + node_height / 2,
+                    )
+                } else {
+                    // Vertical flow: connect Bottom -> Top
+                    (
+                        ConnectionSite::Bottom,
+                        ConnectionSite::Top,
+                        from_x + node_width / 2,
+                        from_y + node_height,
+                        to_x + node_width / 2,
+                        to_y,
+                    )
+                };
 
             // Use elbow connector for better auto-routing when shapes are not aligned
-            let connector_type = if (start_x as i32 - end_x as i32).abs() < 100_000
-                || (start_y as i32 - end_y as i32).abs() < 100_000
-            {
-                ConnectorType::Straight
-            } else {
-                ConnectorType::Elbow
-            };
+            let connector_type =
+                if start_x.abs_diff(end_x) < 100_000 || start_y.abs_diff(end_y) < 100_000 {
+                    ConnectorType::Straight
+                } else {
+                    ConnectorType::Elbow
+                };
 
             let (line_color, line_dash) = match conn.arrow_type {
                 ArrowStyle::Thick => ("E65100", LineDash::Solid),
@@ -377,8 +514,10 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
             };
 
             let mut connector = Connector::new(connector_type, start_x, start_y, end_x, end_y)
-                .with_line(ConnectorLine::new(line_color, 19050).with_dash(line_dash))
-                .with_end_arrow(ArrowType::Triangle);
+                .with_line(ConnectorLine::new(line_color, 19050).with_dash(line_dash));
+            if conn.arrow_type != ArrowStyle::Open {
+                connector = connector.with_end_arrow(ArrowType::Triangle);
+            }
 
             // Anchor connector to shapes for auto-routing
             if let Some(from_id) = from_shape_id {
@@ -409,8 +548,8 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
 
                 shapes.push(label_shape);
                 element_bounds.push((
-                    mid_x - label_width / 2,
-                    mid_y - label_height / 2,
+                    mid_x.saturating_sub(label_width / 2),
+                    mid_y.saturating_sub(label_height / 2),
                     label_width,
                     label_height,
                 ));
diff --git a/src/cli/markdown/mermaid/gantt.rs b/src/cli/markdown/mermaid/gantt.rs
index d37e14d..c12be94 100644
--- a/src/cli/markdown/mermaid/gantt.rs
+++ b/src/cli/markdown/mermaid/gantt.rs
@@ -1,14 +1,14 @@
 //! Gantt chart diagram parsing and rendering
 
+use super::{keyword, position};
 use crate::generator::{Shape, ShapeFill, ShapeType};
 
 /// Generate shapes for a Gantt chart
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
     let mut title = String::new();
-    let mut sections: Vec<(String, Vec<(String, u32)>)> = Vec::new();
-    let mut current_section = String::new();
-    let mut current_tasks: Vec<(String, u32)> = Vec::new();
+    // Tasks before the first section belong to none
+    let mut sections: Vec<(Option<String>, Vec<(String, u32)>)> = vec![(None, Vec::new())];
 
     for line in code.lines().skip(1) {
         let line = line.trim();
@@ -16,32 +16,24 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             continue;
         }
 
-        if line.starts_with("title") {
-            title = line.strip_prefix("title").unwrap_or("").trim().to_string();
-        } else if line.starts_with("section") {
-            if !current_section.is_empty() {
-                sections.push((current_section.clone(), current_tasks.clone()));
-                current_tasks.clear();
-            }
-            current_section = line
-                .strip_prefix("section")
-                .unwrap_or("")
-                .trim()
-                .to_string();
+        if let Some(text) = keyword(line, "title") {
+            title = text.to_string();
+        } else if let Some(name) = keyword(line, "section") {
+            sections.push((Some(name.to_string()), Vec::new()));
         } else if line.contains(':')
-            && !line.starts_with("dateFormat")
-            && !line.starts_with("axisFormat")
+            && keyword(line, "dateFormat").is_none()
+            && keyword(line, "axisFormat").is_none()
         {
             if let Some((task_name, _rest)) = line.split_once(':') {
                 let duration = 3u32;
-                current_tasks.push((task_name.trim().to_string(), duration));
+                if let Some((_, tasks)) = sections.last_mut() {
+                    tasks.push((task_name.trim().to_string(), duration));
+                }
             }
         }
     }
 
-    if !current_section.is_empty() {
-        sections.push((current_section, current_tasks));
-    }
+    sections.retain(|(name, tasks)| name.is_some() || !tasks.is_empty());
 
     // Layout parameters
     let start_x = 500_000u32;
@@ -62,11 +54,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let colors = ["4472C4", "ED7D31", "70AD47", "FFC000", "5B9BD5"];
 
     for (section_idx, (section_name, tasks)) in sections.iter().enumerate() {
-        let section_shape = Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
-            .with_fill(ShapeFill::new("E0E0E0"))
-            .with_text(section_name);
-        shapes.push(section_shape);
-        y += section_height + 50_000;
+        if let Some(section_name) = section_name {
+            let section_shape =
+                Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
+                    .with_fill(ShapeFill::new("E0E0E0"))
+                    .with_text(section_name);
+            shapes.push(section_shape);
+            y = position(y, 1, section_height + 50_000);
+        }
 
         for (task_idx, (task_name, duration)) in tasks.iter().enumerate() {
             let label_shape =
@@ -74,7 +69,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                     .with_text(task_name);
             shapes.push(label_shape);
 
-            let bar_x = start_x + label_width + 100_000 + (task_idx as u32) * 200_000;
+            let bar_x = position(start_x + label_width + 100_000, task_idx, 200_000);
             let bar_width = duration * bar_width_per_unit;
             let color = colors[(section_idx + task_idx) % colors.len()];
 
@@ -88,7 +83,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             .with_fill(ShapeFill::new(color));
             shapes.push(bar_shape);
 
-            y += task_spacing;
+            y = position(y, 1, task_spacing);
         }
     }
 
diff --git a/src/cli/markdown/mermaid/gitgraph.rs b/src/cli/markdown/mermaid/gitgraph.rs
index bf4ba66..a8634f5 100644
--- a/src/cli/markdown/mermaid/gitgraph.rs
+++ b/src/cli/markdown/mermaid/gitgraph.rs
@@ -1,8 +1,39 @@
 //! Git graph diagram rendering
 
 use super::types::{create_labeled_dot, LabelPosition};
+use super::{keyword, position};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
+/// The value of an attribute of a commit, as in `id: "Initial"`
+fn attribute<'a>(text: &'a str, name: &str) -> Option<&'a str> {
+    let mut rest = text;
+    while !rest.is_empty() {
+        if let Some(value) = rest.strip_prefix(name) {
+            let value = value.trim_start();
+            return match value.strip_prefix('"') {
+                Some(quoted) => quoted.split('"').next(),
+                None => value.split_whitespace().next(),
+            };
+        }
+        // The next word, past a quoted text
+        rest = match rest.strip_prefix('"') {
+            Some(quoted) => quoted.split_once('"').map_or("", |(_, after)| after),
+            None => rest.find([' ', '"']).map_or("", |end| &rest[end..]),
+        }
+        .trim_start();
+    }
+    None
+}
+
+/// The name of a branch at the start of a text
+fn branch_name(text: &str) -> String {
+    let name = match text.strip_prefix('"') {
+        Some(quoted) => quoted.split('"').next(),
+        None => text.split_whitespace().next(),
+    };
+    name.unwrap_or("").to_string()
+}
+
 /// Generate shapes for a git graph
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
@@ -17,41 +48,29 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             continue;
         }
 
-        if trimmed.starts_with("commit") {
+        if let Some(rest) = keyword(trimmed, "commit") {
             // Parse: commit id: "message"
-            let id = if trimmed.contains("id:") {
-                let parts: Vec<&str> = trimmed.split("id:").collect();
-                if parts.len() > 1 {
-                    parts[1].trim().trim_matches('"').to_string()
-                } else {
-                    format!("C{}", commit_count)
-                }
-            } else {
-                format!("C{}", commit_count)
+            let id = match attribute(rest, "id:") {
+                Some(id) => id.to_string(),
+                None => format!("C{}", commit_count),
             };
             commits.push((id, current_branch.clone(), commit_count));
             commit_count += 1;
-        } else if trimmed.starts_with("branch") {
-            let branch_name = trimmed
-                .strip_prefix("branch")
-                .unwrap_or("")
-                .trim()
-                .to_string();
-            if !branch_name.is_empty() && !branches.contains(&branch_name) {
-                branches.push(branch_name);
-            }
-        } else if trimmed.starts_with("checkout") {
-            let branch_name = trimmed
-                .strip_prefix("checkout")
-                .unwrap_or("")
-                .trim()
-                .to_string();
+        } else if let Some(rest) = keyword(trimmed, "branch")
+            .or_else(|| keyword(trimmed, "checkout"))
+            .or_else(|| keyword(trimmed, "switch"))
+        {
+            // A new branch is also checked out
+            let branch_name = branch_name(rest);
             if !branch_name.is_empty() {
+                if !branches.contains(&branch_name) {
+                    branches.push(branch_name.clone());
+                }
                 current_branch = branch_name;
             }
-        } else if trimmed.starts_with("merge") {
+        } else if let Some(rest) = keyword(trimmed, "merge") {
             // Merge creates a commit on current branch
-            let merge_from = trimmed.strip_prefix("merge").unwrap_or("").trim();
+            let merge_from = branch_name(rest);
             commits.push((
                 format!("Merge {}", merge_from),
                 current_branch.clone(),
@@ -73,7 +92,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     // Draw branch lines first (as background)
     for (i, branch) in branches.iter().enumerate() {
-        let y = start_y + (i as u32) * branch_spacing;
+        let y = position(start_y, i, branch_spacing);
         let color = branch_colors[i % branch_colors.len()];
 
         // Branch label
@@ -90,7 +109,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         );
 
         // Branch line (simplified as rectangle)
-        let line_length = (commit_count.max(1) as u32) * commit_spacing + 200_000;
+        let line_length = position(200_000, commit_count.max(1) as usize, commit_spacing);
         shapes.push(
             Shape::new(
                 ShapeType::Rectangle,
@@ -106,8 +125,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     // Draw commits with separate label shapes using helper
     for (id, branch, pos) in &commits {
         let branch_idx = branches.iter().position(|b| b == branch).unwrap_or(0);
-        let x = start_x + (*pos) * commit_spacing;
-        let y = start_y + (branch_idx as u32) * branch_spacing - commit_size / 2;
+        let x = position(start_x, *pos as usize, commit_spacing);
+        let y = position(start_y, branch_idx, branch_spacing) - commit_size / 2;
         let color = branch_colors[branch_idx % branch_colors.len()];
 
         shapes.extend(create_labeled_dot(
diff --git a/src/cli/markdown/mermaid/journey.rs b/src/cli/markdown/mermaid/journey.rs
index 90687f5..662e796 100644
--- a/src/cli/markdown/mermaid/journey.rs
+++ b/src/cli/markdown/mermaid/journey.rs
@@ -1,46 +1,39 @@
 //! Journey diagram (user journey) rendering
 
+use super::{keyword, position};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Generate shapes for a journey diagram
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
-    let mut sections: Vec<(String, Vec<(String, u8)>)> = Vec::new();
-    let mut current_section = String::new();
-    let mut current_items: Vec<(String, u8)> = Vec::new();
+    let mut title = String::new();
+    // Tasks before the first section belong to none
+    let mut sections: Vec<(Option<String>, Vec<(String, u8)>)> = vec![(None, Vec::new())];
 
     for line in code.lines().skip(1) {
         let trimmed = line.trim();
-        if trimmed.is_empty() || trimmed.starts_with("title") {
+        if trimmed.is_empty() {
             continue;
         }
 
-        if trimmed.starts_with("section") {
-            // Save previous section
-            if !current_section.is_empty() {
-                sections.push((current_section.clone(), current_items.clone()));
-                current_items.clear();
-            }
-            current_section = trimmed
-                .strip_prefix("section")
-                .unwrap_or("")
-                .trim()
-                .to_string();
+        if let Some(text) = keyword(trimmed, "title") {
+            title = text.to_string();
+        } else if let Some(name) = keyword(trimmed, "section") {
+            sections.push((Some(name.to_string()), Vec::new()));
         } else if trimmed.contains(':') {
             // Parse item: "Task name: score: Actor"
             let parts: Vec<&str> = trimmed.split(':').collect();
             if parts.len() >= 2 {
                 let task = parts[0].trim().to_string();
                 let score = parts[1].trim().parse::<u8>().unwrap_or(3);
-                current_items.push((task, score));
+                if let Some((_, items)) = sections.last_mut() {
+                    items.push((task, score));
+                }
             }
         }
     }
 
-    // Save last section
-    if !current_section.is_empty() {
-        sections.push((current_section, current_items));
-    }
+    sections.retain(|(name, items)| name.is_some() || !items.is_empty());
 
     // Layout constants
     let start_x = 500_000u32;
@@ -49,15 +42,30 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let item_height = 400_000u32;
     let section_gap = 200_000u32;
 
+    if !title.is_empty() {
+        shapes.push(
+            Shape::new(
+                ShapeType::Rectangle,
+                start_x,
+                start_y - 500_000,
+                7_500_000,
+                400_000,
+            )
+            .with_text(&title),
+        );
+    }
+
     let mut x = start_x;
 
     for (section_name, items) in &sections {
         // Section header
-        shapes.push(
-            Shape::new(ShapeType::Rectangle, x, start_y, section_width, 350_000)
-                .with_fill(ShapeFill::new("7B1FA2"))
-                .with_text(section_name),
-        );
+        if let Some(section_name) = section_name {
+            shapes.push(
+                Shape::new(ShapeType::Rectangle, x, start_y, section_width, 350_000)
+                    .with_fill(ShapeFill::new("7B1FA2"))
+                    .with_text(section_name),
+            );
+        }
 
         // Items in section
         let mut y = start_y + 400_000;
@@ -85,10 +93,10 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                 .with_text(&format!("{} ({})", task, score)),
             );
 
-            y += item_height;
+            y = position(y, 1, item_height);
         }
 
-        x += section_width + section_gap;
+        x = position(x, 1, section_width + section_gap);
     }
 
     // If no sections parsed, create placeholder
diff --git a/src/cli/markdown/mermaid/mindmap.rs b/src/cli/markdown/mermaid/mindmap.rs
index ab2bf65..f3564d1 100644
--- a/src/cli/markdown/mermaid/mindmap.rs
+++ b/src/cli/markdown/mermaid/mindmap.rs
@@ -1,14 +1,41 @@
 //! Mindmap diagram parsing and rendering
 
 use super::types::{create_labeled_shape, LabelPosition};
+use super::{position, unquote};
 use crate::generator::{Shape, ShapeType};
 
+/// The text of a node: `id((text))`, `id[text]`, `(text)` or just `text`
+fn node_text(line: &str) -> &str {
+    let line = line.trim_start_matches(['-', '+', '*']).trim();
+    for (open, close) in [
+        ("((", "))"),
+        ("))", "(("),
+        ("{{", "}}"),
+        ("[", "]"),
+        ("(", ")"),
+        (")", "("),
+    ] {
+        if let Some((id, rest)) = line.split_once(open) {
+            if let Some(text) = rest.strip_suffix(close) {
+                if id
+                    .chars()
+                    .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
+                {
+                    return unquote(text);
+                }
+            }
+        }
+    }
+    line
+}
+
 /// Generate shapes for a mindmap
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
 
-    let mut root = String::new();
-    let mut level1: Vec<String> = Vec::new();
+    let mut root: Option<(usize, String)> = None;
+    let mut level1: Vec<(usize, String)> = Vec::new();
+    // Everything below level 1, by branch
     let mut level2: Vec<(usize, String)> = Vec::new();
 
     for line in code.lines().skip(1) {
@@ -18,31 +45,29 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
 
         let spaces = line.len() - line.trim_start().len();
-        let text = trimmed
-            .trim_start_matches(|c| c == '-' || c == '+' || c == '*')
-            .trim()
-            .trim_matches(|c| c == '(' || c == ')' || c == '[' || c == ']')
-            .to_string();
+        if trimmed.starts_with("::") {
+            // An icon or a class of the node above
+            continue;
+        }
+        let text = node_text(trimmed).to_string();
 
         if text.is_empty() {
             continue;
         }
 
-        if spaces == 0 || (root.is_empty() && spaces <= 4) {
-            if root.is_empty() {
-                root = text;
-            }
-        } else if spaces <= 8 {
-            level1.push(text);
+        if root.is_none() {
+            root = Some((spaces, text));
+        } else if level1.last().is_some_and(|(indent, _)| spaces > *indent) {
+            level2.push((level1.len() - 1, text));
         } else {
-            let parent_idx = level1.len().saturating_sub(1);
-            level2.push((parent_idx, text));
+            level1.push((spaces, text));
         }
     }
+    let root = root.map(|(_, text)| text).unwrap_or_default();
 
     // Layout parameters
-    let center_x = 4_000_000u32;
-    let center_y = 3_000_000u32;
+    let center_x = 4_500_000u32;
+    let center_y = 4_500_000u32;
     let root_width = 2_000_000u32;
     let root_height = 600_000u32;
     let node_width = 1_500_000u32;
@@ -71,10 +96,17 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         2.0 * std::f64::consts::PI / level1.len() as f64
     };
 
-    for (i, text) in level1.iter().enumerate() {
+    // Top left corner of a node around the root
+    let around = |radius: u32, angle: f64| {
+        (
+            center_x.saturating_add_signed((radius as f64 * angle.cos()) as i32) - node_width / 2,
+            center_y.saturating_add_signed((radius as f64 * angle.sin()) as i32) - node_height / 2,
+        )
+    };
+
+    for (i, (_, text)) in level1.iter().enumerate() {
         let angle = (i as f64) * angle_step - std::f64::consts::PI / 2.0;
-        let x = center_x + (radius1 as f64 * angle.cos()) as u32 - node_width / 2;
-        let y = center_y + (radius1 as f64 * angle.sin()) as u32 - node_height / 2;
+        let (x, y) = around(radius1, angle);
 
         let color = level1_colors[i % level1_colors.len()];
         shapes.extend(create_labeled_shape(
@@ -91,11 +123,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Level 2 nodes
-    for (parent_idx, text) in &level2 {
+    for (i, (parent_idx, text)) in level2.iter().enumerate() {
         if *parent_idx < level1.len() {
             let parent_angle = (*parent_idx as f64) * angle_step - std::f64::consts::PI / 2.0;
-            let x = center_x + (radius2 as f64 * parent_angle.cos()) as u32 - node_width / 2;
-            let y = center_y + (radius2 as f64 * parent_angle.sin()) as u32 - node_height / 2;
+            let (x, y) = around(radius2, parent_angle);
+            // Below the nodes of the same branch
+            let before = level2[..i].iter().filter(|(p, _)| p == parent_idx).count();
+            let y = position(y, before, node_height + 50_000);
 
             shapes.extend(create_labeled_shape(
                 ShapeType::RoundedRectangle,
diff --git a/src/cli/markdown/mermaid/mod.rs b/src/cli/markdown/mermaid/mod.rs
index 5a6ec4b..2c3b2c0 100644
--- a/src/cli/markdown/mermaid/mod.rs
+++ b/src/cli/markdown/mermaid/mod.rs
@@ -34,8 +34,48 @@ pub use types::*;
 
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
+/// The part of the source that describes the diagram: front matter, directives,
+/// comments and blank lines are left out
+fn source(code: &str) -> String {
+    let mut lines = code.lines().peekable();
+    while lines.next_if(|line| line.trim().is_empty()).is_some() {}
+    if lines.peek().map(|line| line.trim()) == Some("---")
+        && lines.clone().skip(1).any(|line| line.trim() == "---")
+    {
+        lines.next();
+        while lines.next_if(|line| line.trim() != "---").is_some() {}
+        lines.next();
+    }
+    lines
+        .filter(|line| !line.trim().is_empty() && !line.trim_start().starts_with("%%"))
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
+/// The rest of a line that starts with the given keyword
+fn keyword<'a>(line: &'a str, word: &str) -> Option<&'a str> {
+    let rest = line.strip_prefix(word)?;
+    (rest.is_empty() || rest.starts_with(char::is_whitespace)).then(|| rest.trim())
+}
+
+/// Text without the quotes around it
+fn unquote(text: &str) -> &str {
+    let text = text.trim();
+    text.strip_prefix('"')
+        .and_then(|inner| inner.strip_suffix('"'))
+        .unwrap_or(text)
+}
+
+/// Position of the n-th element of a row or column
+fn position(start: u32, index: usize, spacing: u32) -> u32 {
+    // Far outside the slide, but inside what later sums can hold
+    const LIMIT: u64 = 1 << 30;
+    (start as u64 + (index as u64).saturating_mul(spacing as u64)).min(LIMIT) as u32
+}
+
 /// Detect the type of Mermaid diagram from code
 pub fn detect_type(code: &str) -> MermaidType {
+    let code = source(code);
     let first_line = code.lines().next().unwrap_or("").trim().to_lowercase();
 
     if first_line.starts_with("graph") || first_line.starts_with("flowchart") {
@@ -70,6 +110,7 @@ pub fn detect_type(code: &str) -> MermaidType {
 /// Create shapes and connectors for a Mermaid diagram (main entry point)
 pub fn create_diagram_elements(code: &str) -> DiagramElements {
     let diagram_type = detect_type(code);
+    let code = &source(code);
 
     match diagram_type {
         MermaidType::Flowchart => {
@@ -78,7 +119,8 @@ pub fn create_diagram_elements(code: &str) -> DiagramElements {
         }
         MermaidType::Pie => {
             let slices = pie::parse(code);
-            let shapes = pie::generate_shapes(&slices);
+            let mut shapes = pie::generate_shapes(&slices);
+            shapes.extend(pie::title_shape(code));
             DiagramElements::from_shapes(shapes)
         }
         MermaidType::Sequence => DiagramElements::from_shapes(sequence::generate_shapes(code)),
diff --git a/src/cli/markdown/mermaid/pie.rs b/src/cli/markdown/mermaid/pie.rs
index 6d6d186..9d80edc 100644
--- a/src/cli/markdown/mermaid/pie.rs
+++ b/src/cli/markdown/mermaid/pie.rs
@@ -1,18 +1,40 @@
 //! Pie chart diagram parsing and rendering
 
+use super::{keyword, position};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
+/// The title of a pie chart, as a shape above the chart
+pub fn title_shape(code: &str) -> Option<Shape> {
+    let mut lines = code.lines().map(str::trim);
+    let first = lines.next().unwrap_or("");
+    let first = keyword(first, "pie").unwrap_or("");
+    let first = keyword(first, "showData").unwrap_or(first);
+    let title =
+        keyword(first, "title").or_else(|| lines.find_map(|line| keyword(line, "title")))?;
+    (!title.is_empty()).then(|| {
+        Shape::new(
+            ShapeType::Rectangle,
+            1_000_000,
+            1_000_000,
+            6_500_000,
+            400_000,
+        )
+        .with_text(title)
+    })
+}
+
 /// Parse pie chart data
 pub fn parse(code: &str) -> Vec<(String, f64)> {
     let mut slices = Vec::new();
 
     for line in code.lines().skip(1) {
         let line = line.trim();
-        if line.contains(':') && !line.starts_with("title") {
-            if let Some((label, value)) = line.split_once(':') {
+        if line.contains(':') && keyword(line, "title").is_none() {
+            if let Some((label, value)) = line.rsplit_once(':') {
                 let label = label.trim().trim_matches('"').to_string();
-                if let Ok(val) = value.trim().parse::<f64>() {
-                    slices.push((label, val));
+                match value.trim().parse::<f64>() {
+                    Ok(val) if val.is_finite() => slices.push((label, val)),
+                    _ => {}
                 }
             }
         }
@@ -67,7 +89,7 @@ pub fn generate_shapes(slices: &[(String, f64)]) -> Vec<Shape> {
         let box_shape = Shape::new(
             ShapeType::Rectangle,
             legend_x,
-            legend_y + (i as u32) * legend_height,
+            position(legend_y, i, legend_height),
             200_000,
             200_000,
         )
@@ -79,7 +101,7 @@ pub fn generate_shapes(slices: &[(String, f64)]) -> Vec<Shape> {
         let label_shape = Shape::new(
             ShapeType::Rectangle,
             legend_x + 300_000,
-            legend_y + (i as u32) * legend_height,
+            position(legend_y, i, legend_height),
             2_500_000,
             200_000,
         )
diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 79ff1d4..a324748 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -1,5 +1,6 @@
 //! Quadrant chart rendering
 
+use super::keyword;
 use super::types::{create_labeled_dot, LabelPosition};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
@@ -7,29 +8,29 @@ use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
     let mut points: Vec<(String, f32, f32)> = Vec::new();
-    let mut _x_axis = ("Low", "High");
-    let mut _y_axis = ("Low", "High");
+    let mut title = "";
+    let mut x_axis = ("", "");
+    let mut y_axis = ("", "");
     let mut quadrant_labels = ["", "", "", ""];
 
     for line in code.lines().skip(1) {
         let trimmed = line.trim();
-        if trimmed.is_empty() || trimmed.starts_with("title") {
+        if trimmed.is_empty() {
             continue;
         }
 
-        if trimmed.starts_with("x-axis") {
-            // Parse: x-axis Low Effort --> High Effort
-            let parts: Vec<&str> = trimmed.split("-->").collect();
-            if parts.len() == 2 {
-                _x_axis.0 = parts[0].strip_prefix("x-axis").unwrap_or("").trim();
-                _x_axis.1 = parts[1].trim();
-            }
-        } else if trimmed.starts_with("y-axis") {
-            let parts: Vec<&str> = trimmed.split("-->").collect();
-            if parts.len() == 2 {
-                _y_axis.0 = parts[0].strip_prefix("y-axis").unwrap_or("").trim();
-                _y_axis.1 = parts[1].trim();
-            }
+        // Parse: x-axis Low Effort --> High Effort
+        let axis = |text| match str::split_once(text, "-->") {
+            Some((low, high)) => (low.trim(), high.trim()),
+            None => (text, ""),
+        };
+
+        if let Some(text) = keyword(trimmed, "title") {
+            title = text;
+        } else if let Some(text) = keyword(trimmed, "x-axis") {
+            x_axis = axis(text);
+        } else if let Some(text) = keyword(trimmed, "y-axis") {
+            y_axis = axis(text);
         } else if trimmed.starts_with("quadrant-") {
             // Parse quadrant labels
             if let Some(rest) = trimmed.strip_prefix("quadrant-1") {
@@ -43,8 +44,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             }
         } else if trimmed.contains('[') && trimmed.contains(']') {
             // Parse point: "Label: [x, y]"
-            if let Some(bracket_start) = trimmed.find('[') {
-                let label = trimmed[..bracket_start].trim_end_matches(':').trim();
+            if let Some(bracket_start) = trimmed.rfind('[') {
+                let label = trimmed[..bracket_start].trim().trim_end_matches(':').trim();
                 let coords = &trimmed[bracket_start..];
                 if let Some(bracket_end) = coords.find(']') {
                     let coord_str = &coords[1..bracket_end];
@@ -115,14 +116,63 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         .with_line(ShapeLine::new("9E9E9E", 12700)),
     );
 
+    // Draw the texts of the chart
+    let texts = [
+        (title, chart_x, chart_y - 500_000, chart_width, 400_000),
+        (
+            quadrant_labels[0],
+            chart_x + half_w,
+            chart_y,
+            half_w,
+            300_000,
+        ),
+        (quadrant_labels[1], chart_x, chart_y, half_w, 300_000),
+        (
+            quadrant_labels[2],
+            chart_x,
+            chart_y + half_h,
+            half_w,
+            300_000,
+        ),
+        (
+            quadrant_labels[3],
+            chart_x + half_w,
+            chart_y + half_h,
+            half_w,
+            300_000,
+        ),
+        (x_axis.0, chart_x, chart_y + chart_height, half_w, 250_000),
+        (
+            x_axis.1,
+            chart_x + half_w,
+            chart_y + chart_height,
+            half_w,
+            250_000,
+        ),
+        (
+            y_axis.0,
+            chart_x - 900_000,
+            chart_y + half_h,
+            850_000,
+            half_h,
+        ),
+        (y_axis.1, chart_x - 900_000, chart_y, 850_000, half_h),
+    ];
+    for (text, x, y, width, height) in texts {
+        if !text.is_empty() {
+            shapes.push(Shape::new(ShapeType::Rectangle, x, y, width, height).with_text(text));
+        }
+    }
+
     // Draw points with separate labels using helper
     let point_size = 300_000u32;
     for (label, x, y) in &points {
         // Convert 0-1 coordinates to chart position
         // Note: y is inverted (0 at bottom, 1 at top)
-        let px = chart_x + ((*x * chart_width as f32) as u32).saturating_sub(point_size / 2);
+        let (x, y) = (x.clamp(0.0, 1.0), y.clamp(0.0, 1.0));
+        let px = chart_x + ((x * chart_width as f32) as u32).saturating_sub(point_size / 2);
         let py =
-            chart_y + (((1.0 - *y) * chart_height as f32) as u32).saturating_sub(point_size / 2);
+            chart_y + (((1.0 - y) * chart_height as f32) as u32).saturating_sub(point_size / 2);
 
         shapes.extend(create_labeled_dot(
             px,
diff --git a/src/cli/markdown/mermaid/sequence.rs b/src/cli/markdown/mermaid/sequence.rs
index a43a5db..18dbcfc 100644
--- a/src/cli/markdown/mermaid/sequence.rs
+++ b/src/cli/markdown/mermaid/sequence.rs
@@ -1,21 +1,63 @@
 //! Sequence diagram parsing and rendering
 
+use super::{keyword, position};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Arrows between participants, longer ones before those they contain
+const ARROWS: [&str; 10] = [
+    "<<-->>", "<<->>", "-->>", "->>", "--x", "-x", "--)", "-)", "-->", "->",
+];
+
+/// What happens between the participants, in order
+enum Event {
+    Message(String, String, String),
+    /// A note over the participants from the first to the second
+    Note(String, String, String),
+}
+
+/// Parse a message: `A->>B: text`
+fn parse_message(line: &str) -> Option<(String, String, String)> {
+    // The names come before the text, which may contain anything
+    let (names, text) = line.split_once(':')?;
+    let (position, arrow) = names
+        .char_indices()
+        .find_map(|(i, _)| Some((i, ARROWS.iter().find(|a| names[i..].starts_with(**a))?)))?;
+    let from = names[..position].trim();
+    let to = names[position + arrow.len()..].trim_start_matches(['+', '-']);
+    Some((
+        from.to_string(),
+        to.trim().to_string(),
+        text.trim().to_string(),
+    ))
+}
+
+/// Parse a note: `Note over A,B: text`
+fn parse_note(rest: &str) -> Option<(String, String, String)> {
+    let (place, text) = rest.split_once(':')?;
+    let names = ["over ", "right of ", "left of "]
+        .iter()
+        .find_map(|p| place.strip_prefix(p))?;
+    let (first, last) = names.split_once(',').unwrap_or((names, names));
+    Some((
+        first.trim().to_string(),
+        last.trim().to_string(),
+        text.trim().to_string(),
+    ))
+}
+
 /// Generate shapes for a sequence diagram
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
     let mut participant_ids: Vec<String> = Vec::new();
     let mut participant_names: HashMap<String, String> = HashMap::new();
-    let mut messages: Vec<(String, String, String)> = Vec::new();
+    let mut events: Vec<Event> = Vec::new();
 
     for line in code.lines().skip(1) {
         let line = line.trim();
 
         // Parse participant
-        if line.starts_with("participant") {
-            let rest = line.strip_prefix("participant").unwrap_or("").trim();
+        if let Some(rest) = keyword(line, "participant").or_else(|| keyword(line, "actor")) {
             let (id, display_name) = if let Some((id, alias)) = rest.split_once(" as ") {
                 (id.trim().to_string(), alias.trim().to_string())
             } else {
@@ -27,27 +69,30 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                 participant_names.insert(id, display_name);
             }
         }
-        // Parse message
-        else if line.contains("->>") || line.contains("-->>") {
-            let arrow = if line.contains("-->>") { "-->>" } else { "->>" };
-            if let Some((from_part, rest)) = line.split_once(arrow) {
-                if let Some((to_part, msg)) = rest.split_once(':') {
-                    let from = from_part.trim().to_string();
-                    let to = to_part.trim().to_string();
-                    let text = msg.trim().to_string();
-
-                    if !participant_ids.contains(&from) {
-                        participant_ids.push(from.clone());
-                        participant_names.insert(from.clone(), from.clone());
-                    }
-                    if !participant_ids.contains(&to) {
-                        participant_ids.push(to.clone());
-                        participant_names.insert(to.clone(), to.clone());
+        // Parse note
+        else if let Some(rest) = keyword(line, "Note").or_else(|| keyword(line, "note")) {
+            if let Some((first, last, text)) = parse_note(rest) {
+                for id in [&first, &last] {
+                    if !participant_ids.contains(id) {
+                        participant_ids.push(id.clone());
+                        participant_names.insert(id.clone(), id.clone());
                     }
-
-                    messages.push((from, to, text));
                 }
+                events.push(Event::Note(first, last, text));
+            }
+        }
+        // Parse message
+        else if let Some((from, to, text)) = parse_message(line) {
+            if !participant_ids.contains(&from) {
+                participant_ids.push(from.clone());
+                participant_names.insert(from.clone(), from.clone());
             }
+            if !participant_ids.contains(&to) {
+                participant_ids.push(to.clone());
+                participant_names.insert(to.clone(), to.clone());
+            }
+
+            events.push(Event::Message(from, to, text));
         }
     }
 
@@ -57,13 +102,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let participant_width = 1_400_000u32;
     let participant_height = 400_000u32;
     let h_spacing = 1_800_000u32;
-    let lifeline_height = 3_000_000u32;
     let message_spacing = 450_000u32;
+    // The lifelines are as long as the last message needs
+    let lifeline_height = position(200_000, events.len(), message_spacing).max(3_000_000);
 
     let mut participant_x: HashMap<String, u32> = HashMap::new();
 
     for (i, id) in participant_ids.iter().enumerate() {
-        let x = start_x + (i as u32) * h_spacing;
+        let x = position(start_x, i, h_spacing);
         participant_x.insert(id.clone(), x);
 
         let display_name = participant_names.get(id).unwrap_or(id);
@@ -111,9 +157,28 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     // Create message arrows
     let message_y_start = start_y + participant_height + 200_000;
 
-    for (i, (from, to, text)) in messages.iter().enumerate() {
+    for (i, event) in events.iter().enumerate() {
+        let (from, to, text) = match event {
+            Event::Message(from, to, text) => (from, to, text),
+            Event::Note(first, last, text) => {
+                if let (Some(&a), Some(&b)) = (participant_x.get(first), participant_x.get(last)) {
+                    let note = Shape::new(
+                        ShapeType::Rectangle,
+                        a.min(b),
+                        position(message_y_start, i, message_spacing).saturating_sub(150_000),
+                        a.abs_diff(b) + participant_width,
+                        300_000,
+                    )
+                    .with_fill(ShapeFill::new("FFF9C4"))
+                    .with_line(ShapeLine::new("757575", 1))
+                    .with_text(text);
+                    shapes.push(note);
+                }
+                continue;
+            }
+        };
         if let (Some(&from_x), Some(&to_x)) = (participant_x.get(from), participant_x.get(to)) {
-            let y = message_y_start + (i as u32) * message_spacing;
+            let y = position(message_y_start, i, message_spacing);
             let from_center = from_x + participant_width / 2;
             let to_center = to_x + participant_width / 2;
 
diff --git a/src/cli/markdown/mermaid/state_diagram.rs b/src/cli/markdown/mermaid/state_diagram.rs
index 5c97e79..19ceb35 100644
--- a/src/cli/markdown/mermaid/state_diagram.rs
+++ b/src/cli/markdown/mermaid/state_diagram.rs
@@ -1,52 +1,108 @@
 //! State diagram parsing and rendering
 
 use super::types::DiagramElements;
+use super::{keyword, position};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// The id of a state, without the class given to it
+fn state_id(text: &str) -> &str {
+    let id = text.split(":::").next().unwrap_or("");
+    id.trim().trim_end_matches(';').trim()
+}
+
+/// Add a state unless it is known, and name it
+fn declare(states: &mut Vec<(String, String)>, id: &str, name: Option<&str>) {
+    if id.is_empty() {
+        return;
+    }
+    if !states.iter().any(|(known, _)| known == id) {
+        states.push((id.to_string(), id.to_string()));
+    }
+    if let Some(state) = states.iter_mut().find(|(known, _)| known == id) {
+        if let Some(name) = name {
+            state.1 = name.to_string();
+        }
+    }
+}
+
 /// Generate shapes and connectors for a state diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut states: Vec<String> = Vec::new();
+    // The start and end markers are states of their own, whatever others are called
+    const START: &str = "[*] start";
+    const END: &str = "[*] end";
+
+    let mut states: Vec<(String, String)> = Vec::new();
     let mut transitions: Vec<(String, String, String)> = Vec::new();
+    let mut in_note = false;
 
     for line in code.lines().skip(1) {
         let line = line.trim();
-        if line.is_empty() || line.starts_with("%%") || line.starts_with("direction") {
+        if line.is_empty() || line.starts_with("%%") || keyword(line, "direction").is_some() {
             continue;
         }
 
-        if line.contains("-->") {
-            let parts: Vec<&str> = line.split("-->").collect();
-            if parts.len() >= 2 {
-                let from = parts[0].trim().to_string();
-                let (to, label) = if let Some((t, l)) = parts[1].split_once(':') {
-                    (t.trim().to_string(), l.trim().to_string())
-                } else {
-                    (parts[1].trim().to_string(), String::new())
-                };
+        if in_note {
+            in_note = line != "end note";
+        } else if let Some(note) = keyword(line, "note") {
+            in_note = !note.contains(':');
+        } else if let Some((from, rest)) = line.split_once("-->") {
+            let (to, label) = match rest.split_once(':') {
+                Some((t, l)) if !l.starts_with("::") => (t.trim(), l.trim()),
+                _ => (rest.trim(), ""),
+            };
+
+            let from_state = match state_id(from) {
+                "[*]" => START,
+                id => id,
+            };
+            let to_state = match state_id(to) {
+                "[*]" => END,
+                id => id,
+            };
 
-                let from_state = if from == "[*]" {
-                    "Start".to_string()
-                } else {
-                    from
+            for id in [from_state, to_state] {
+                let name = match id {
+                    START => Some("Start"),
+                    END => Some("End"),
+                    _ => None,
                 };
-                let to_state = if to == "[*]" { "End".to_string() } else { to };
+                declare(&mut states, id, name);
+            }
 
-                if !states.contains(&from_state) {
-                    states.push(from_state.clone());
+            transitions.push((
+                from_state.to_string(),
+                to_state.to_string(),
+                label.to_string(),
+            ));
+        } else if let Some(rest) = keyword(line, "state") {
+            // state "name" as id, state id { or state id <<choice>>
+            let rest = rest.trim_end_matches('{').trim();
+            match rest.strip_prefix('"').and_then(|r| r.split_once('"')) {
+                Some((name, after)) => {
+                    let id = keyword(after.trim(), "as").unwrap_or(name);
+                    declare(&mut states, state_id(id), Some(name));
                 }
-                if !states.contains(&to_state) {
-                    states.push(to_state.clone());
+                None => {
+                    let id = rest.split("<<").next().unwrap_or("").trim();
+                    declare(&mut states, state_id(id), None);
                 }
-
-                transitions.push((from_state, to_state, label));
             }
+        } else if let Some((id, name)) = line.split_once(':').filter(|(_, n)| !n.starts_with(':')) {
+            declare(&mut states, id.trim(), Some(name.trim()));
+        } else if line
+            .trim_end_matches(';')
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
+            && !line.starts_with("--")
+        {
+            declare(&mut states, line.trim_end_matches(';'), None);
         }
     }
 
@@ -62,21 +118,19 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     let mut state_shape_ids: HashMap<String, u32> = HashMap::new();
     let mut shape_id = 10u32;
 
-    for (i, state) in states.iter().enumerate() {
+    for (i, (state, name)) in states.iter().enumerate() {
         let x = start_x + (i as u32 % 3) * h_spacing;
-        let y = start_y + (i as u32 / 3) * v_spacing;
+        let y = position(start_y, i / 3, v_spacing);
         state_positions.insert(state.clone(), (x, y));
         state_shape_ids.insert(state.clone(), shape_id);
 
-        let shape_type = if state == "Start" || state == "End" {
+        let shape_type = if state == START || state == END {
             ShapeType::Ellipse
         } else {
             ShapeType::RoundedRectangle
         };
 
-        let fill_color = if state == "Start" {
-            "000000"
-        } else if state == "End" {
+        let fill_color = if state == START || state == END {
             "000000"
         } else {
             "E0F7FA"
@@ -86,7 +140,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             .with_id(shape_id)
             .with_fill(ShapeFill::new(fill_color))
             .with_line(ShapeLine::new("00838F", 2))
-            .with_text(state);
+            .with_text(name);
         shapes.push(shape);
         shape_id += 1;
     }
diff --git a/src/cli/markdown/mermaid/timeline.rs b/src/cli/markdown/mermaid/timeline.rs
index 13f8242..0fd6117 100644
--- a/src/cli/markdown/mermaid/timeline.rs
+++ b/src/cli/markdown/mermaid/timeline.rs
@@ -1,5 +1,6 @@
 //! Timeline diagram parsing and rendering
 
+use super::{keyword, position};
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Generate shapes for a timeline
@@ -8,8 +9,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     let mut title = String::new();
     let mut events: Vec<(String, Vec<String>)> = Vec::new();
-    let mut current_date = String::new();
-    let mut current_items: Vec<String> = Vec::new();
+    // Section names, with the event each one starts at
+    let mut sections: Vec<(usize, String)> = Vec::new();
 
     for line in code.lines().skip(1) {
         let line = line.trim();
@@ -17,27 +18,25 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             continue;
         }
 
-        if line.starts_with("title") {
-            title = line.strip_prefix("title").unwrap_or("").trim().to_string();
-        } else if line.contains(':') {
-            if !current_date.is_empty() {
-                events.push((current_date.clone(), current_items.clone()));
-                current_items.clear();
+        if let Some(text) = keyword(line, "title") {
+            title = text.to_string();
+        } else if let Some(name) = keyword(line, "section") {
+            sections.push((events.len(), name.to_string()));
+        } else if let Some((date, item)) = line.split_once(':') {
+            // A line that names no date continues the one before
+            if !date.trim().is_empty() || events.is_empty() {
+                events.push((date.trim().to_string(), Vec::new()));
             }
-            let (date, item) = line.split_once(':').unwrap();
-            current_date = date.trim().to_string();
-            if !item.trim().is_empty() {
-                current_items.push(item.trim().to_string());
+            if let Some((_, items)) = events.last_mut() {
+                if !item.trim().is_empty() {
+                    items.push(item.trim().to_string());
+                }
             }
-        } else if !current_date.is_empty() {
-            current_items.push(line.to_string());
+        } else if let Some((_, items)) = events.last_mut() {
+            items.push(line.to_string());
         }
     }
 
-    if !current_date.is_empty() {
-        events.push((current_date, current_items));
-    }
-
     // Layout parameters
     let start_x = 500_000u32;
     let start_y = 1_600_000u32;
@@ -54,7 +53,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Timeline line
-    let line_width = (events.len() as u32) * event_spacing + 500_000;
+    let line_width = position(500_000, events.len(), event_spacing);
     let timeline_line = Shape::new(
         ShapeType::Rectangle,
         start_x,
@@ -68,8 +67,21 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     // Events
     let colors = ["EFEBE9", "D7CCC8", "BCAAA4", "A1887F"];
 
+    // Sections above the dates
+    for (i, name) in &sections {
+        let section_shape = Shape::new(
+            ShapeType::Rectangle,
+            position(start_x, *i, event_spacing),
+            timeline_y - date_height - 400_000,
+            event_width,
+            250_000,
+        )
+        .with_text(name);
+        shapes.push(section_shape);
+    }
+
     for (i, (date, items)) in events.iter().enumerate() {
-        let x = start_x + (i as u32) * event_spacing;
+        let x = position(start_x, i, event_spacing);
         let color = colors[i % colors.len()];
 
         // Date marker
@@ -97,7 +109,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         // Event items
         let items_text = items.join("\n");
-        let items_height = (items.len().max(1) as u32) * item_height;
+        let items_height = position(0, items.len().max(1), item_height);
         let items_shape = Shape::new(
             ShapeType::RoundedRectangle,
             x,
diff --git a/src/cli/markdown/mermaid/types.rs b/src/cli/markdown/mermaid/types.rs
index 90a20dc..db0c684 100644
--- a/src/cli/markdown/mermaid/types.rs
+++ b/src/cli/markdown/mermaid/types.rs
@@ -107,8 +107,8 @@ impl DiagramBounds {
         for &(x, y, w, h) in positions {
             min_x = min_x.min(x);
             min_y = min_y.min(y);
-            max_x = max_x.max(x + w);
-            max_y = max_y.max(y + h);
+            max_x = max_x.max(x.saturating_add(w));
+            max_y = max_y.max(y.saturating_add(h));
         }
 
         Some(Self {
@@ -199,20 +199,23 @@ pub fn create_labeled_shape(
 
     let (lx, ly) = match label_pos {
         LabelPosition::Above => (
-            x + width / 2 - label_width / 2,
+            (x + width / 2).saturating_sub(label_width / 2),
             y.saturating_sub(label_height + 50_000),
         ),
-        LabelPosition::Right => (x + width + 50_000, y + height / 2 - label_height / 2),
+        LabelPosition::Right => (
+            x + width + 50_000,
+            (y + height / 2).saturating_sub(label_height / 2),
+        ),
         LabelPosition::Inside => (x + 50_000, y + 50_000),
     };
 
     let lw = if matches!(label_pos, LabelPosition::Inside) {
-        width - 100_000
+        width.saturating_sub(100_000)
     } else {
         label_width
     };
     let lh = if matches!(label_pos, LabelPosition::Inside) {
-        height - 100_000
+        height.saturating_sub(100_000)
     } else {
         label_height
     };
@@ -249,10 +252,13 @@ pub fn create_labeled_dot(
 
     let (lx, ly) = match label_pos {
         LabelPosition::Above => (
-            x + size / 2 - label_width / 2,
+            (x + size / 2).saturating_sub(label_width / 2),
             y.saturating_sub(label_height + 50_000),
         ),
-        LabelPosition::Right => (x + size + 50_000, y + size / 2 - label_height / 2),
+        LabelPosition::Right => (
+            x + size + 50_000,
+            (y + size / 2).saturating_sub(label_height / 2),
+        ),
         LabelPosition::Inside => (x, y),
     };
 
diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 5a226b6..98cca70 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -396,20 +396,33 @@ impl MarkdownParser {
 
             // Offset from current position to centered position
             (
-                center_x.saturating_sub(bounds.x) as i32,
-                center_y.saturating_sub(bounds.y) as i32,
+                center_x as i64 - bounds.x as i64,
+                center_y as i64 - bounds.y as i64,
             )
         } else {
             (0, 0)
         };
 
+        let moved = |at: u32, offset: i64| (at as i64 + offset).clamp(0, u32::MAX as i64) as u32;
+
+        let slide = self.slide(title);
+
+        // The ids of this diagram come after those the slide already uses
+        let used = slide.shapes.iter().filter_map(|shape| shape.id).max();
+        let first = elements.shapes.iter().filter_map(|shape| shape.id).min();
+        let id_offset = match (used, first) {
+            (Some(used), Some(first)) => (used + 1).saturating_sub(first),
+            _ => 0,
+        };
+
         // Apply offset to shapes
         let shapes: Vec<_> = elements
             .shapes
             .into_iter()
             .map(|mut shape| {
-                shape.x = (shape.x as i32 + offset_x).max(0) as u32;
-                shape.y = (shape.y as i32 + offset_y).max(0) as u32;
+                shape.x = moved(shape.x, offset_x);
+                shape.y = moved(shape.y, offset_y);
+                shape.id = shape.id.map(|id| id + id_offset);
                 shape
             })
             .collect();
@@ -419,15 +432,16 @@ impl MarkdownParser {
             .connectors
             .into_iter()
             .map(|mut conn| {
-                conn.start_x = (conn.start_x as i32 + offset_x).max(0) as u32;
-                conn.start_y = (conn.start_y as i32 + offset_y).max(0) as u32;
-                conn.end_x = (conn.end_x as i32 + offset_x).max(0) as u32;
-                conn.end_y = (conn.end_y as i32 + offset_y).max(0) as u32;
+                conn.start_x = moved(conn.start_x, offset_x);
+                conn.start_y = moved(conn.start_y, offset_y);
+                conn.end_x = moved(conn.end_x, offset_x);
+                conn.end_y = moved(conn.end_y, offset_y);
+                conn.start_shape_id = conn.start_shape_id.map(|id| id + id_offset);
+                conn.end_shape_id = conn.end_shape_id.map(|id| id + id_offset);
                 conn
             })
             .collect();
 
-        let slide = self.slide(title);
         slide.shapes.extend(shapes);
         slide.connectors.extend(connectors);
     }
-- 
2.43.0


From 8b5723f0b27e4f91d8df459482c950c86a13b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:52 +0000
Subject: [PATCH 48/77] fix: bullets of centered-title and section-header
 slides are shown below the title

---
 src/generator/slide_xml/layouts.rs | 164 ++++++++++++-----------------
 1 file changed, 67 insertions(+), 97 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 09d441c..56e9237 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -57,6 +57,66 @@ fn generate_bullet_paragraph_from_point(
     )
 }
 
+/// Generate a text box with the bullets of the slide, if it has any
+fn generate_content_shape(
+    content: &SlideContent,
+    shape_id: u32,
+    (x, y, cx, cy): (u32, u32, u32, u32),
+    default_size: u32,
+) -> String {
+    if content.bullets.is_empty() && content.content.is_empty() {
+        return String::new();
+    }
+
+    let default_props = ExtendedTextProps::with_basic(
+        content.content_size.unwrap_or(default_size).saturating_mul(100),
+        content.content_bold,
+        content.content_italic,
+        content.content_underline,
+        content.content_color.as_deref(),
+    );
+
+    let mut xml = format!(
+        r#"
+<p:sp>
+<p:nvSpPr>
+<p:cNvPr id="{shape_id}" name="Content"/>
+<p:cNvSpPr txBox="1"/>
+<p:nvPr/>
+</p:nvSpPr>
+<p:spPr>
+<a:xfrm>
+<a:off x="{x}" y="{y}"/>
+<a:ext cx="{cx}" cy="{cy}"/>
+</a:xfrm>
+<a:prstGeom prst="rect"><a:avLst/></a:prstGeom>
+<a:noFill/>
+</p:spPr>
+<p:txBody>
+<a:bodyPr wrap="square" rtlCol="0"/>
+<a:lstStyle/>"#
+    );
+
+    // Use styled bullets if available, otherwise use plain content
+    if !content.bullets.is_empty() {
+        for bullet in &content.bullets {
+            xml.push_str(&generate_bullet_paragraph_from_point(bullet, &default_props));
+        }
+    } else {
+        for bullet in &content.content {
+            let bp = BulletPoint::new(bullet).with_style(content.bullet_style);
+            xml.push_str(&generate_bullet_paragraph_from_point(&bp, &default_props));
+        }
+    }
+
+    xml.push_str(
+        r#"
+</p:txBody>
+</p:sp>"#
+    );
+    xml
+}
+
 /// Create a blank slide
 pub fn create_blank_slide(
     content: &SlideContent,
@@ -128,6 +188,8 @@ pub fn create_section_header_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    // Subtitle below the title
+    xml.push_str(&generate_content_shape(content, 3, (457200, 3520440, 8230200, 1752600), 24));
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -160,6 +222,8 @@ pub fn create_centered_title_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    // Subtitle below the title
+    xml.push_str(&generate_content_shape(content, 3, (457200, 4206240, 8230200, 1752600), 24));
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -172,7 +236,6 @@ pub fn create_title_and_big_content_slide(
     ink_rel_id: Option<&str>,
 ) -> String {
     let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
-    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -217,54 +280,7 @@ pub fn create_title_and_big_content_slide(
     ));
 
     // Content
-    if !content.bullets.is_empty() || !content.content.is_empty() {
-        xml.push_str(
-            r#"
-<p:sp>
-<p:nvSpPr>
-<p:cNvPr id="3" name="Content"/>
-<p:cNvSpPr txBox="1"/>
-<p:nvPr/>
-</p:nvSpPr>
-<p:spPr>
-<a:xfrm>
-<a:off x="457200" y="1189200"/>
-<a:ext cx="8230200" cy="5668800"/>
-</a:xfrm>
-<a:prstGeom prst="rect"><a:avLst/></a:prstGeom>
-<a:noFill/>
-</p:spPr>
-<p:txBody>
-<a:bodyPr wrap="square" rtlCol="0"/>
-<a:lstStyle/>"#
-        );
-
-        let default_props = ExtendedTextProps::with_basic(
-            content_size,
-            content.content_bold,
-            content.content_italic,
-            content.content_underline,
-            content.content_color.as_deref(),
-        );
-
-        // Use styled bullets if available, otherwise use plain content
-        if !content.bullets.is_empty() {
-            for bullet in &content.bullets {
-                xml.push_str(&generate_bullet_paragraph_from_point(bullet, &default_props));
-            }
-        } else {
-            for bullet in &content.content {
-                let bp = BulletPoint::new(bullet).with_style(content.bullet_style);
-                xml.push_str(&generate_bullet_paragraph_from_point(&bp, &default_props));
-            }
-        }
-
-        xml.push_str(
-            r#"
-</p:txBody>
-</p:sp>"#
-        );
-    }
+    xml.push_str(&generate_content_shape(content, 3, (457200, 1189200, 8230200, 5668800), 28));
 
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
@@ -430,7 +446,6 @@ pub fn create_title_and_content_slide(
     ink_rel_id: Option<&str>,
 ) -> String {
     let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
-    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -478,54 +493,9 @@ pub fn create_title_and_content_slide(
     if let Some(ref table) = content.table {
         xml.push('\n');
         xml.push_str(&crate::generator::table::generate_table_xml(table, 3));
-    } else if !content.bullets.is_empty() || !content.content.is_empty() {
+    } else {
         // Render bullets if no table
-        xml.push_str(
-            r#"
-<p:sp>
-<p:nvSpPr>
-<p:cNvPr id="3" name="Content"/>
-<p:cNvSpPr txBox="1"/>
-<p:nvPr/>
-</p:nvSpPr>
-<p:spPr>
-<a:xfrm>
-<a:off x="457200" y="1600200"/>
-<a:ext cx="8230200" cy="4572000"/>
-</a:xfrm>
-<a:prstGeom prst="rect"><a:avLst/></a:prstGeom>
-<a:noFill/>
-</p:spPr>
-<p:txBody>
-<a:bodyPr wrap="square" rtlCol="0"/>
-<a:lstStyle/>"#
-        );
-
-        let default_props = ExtendedTextProps::with_basic(
-            content_size,
-            content.content_bold,
-            content.content_italic,
-            content.content_underline,
-            content.content_color.as_deref(),
-        );
-
-        // Use styled bullets if available, otherwise use plain content
-        if !content.bullets.is_empty() {
-            for bullet in &content.bullets {
-                xml.push_str(&generate_bullet_paragraph_from_point(bullet, &default_props));
-            }
-        } else {
-            for bullet in &content.content {
-                let bp = BulletPoint::new(bullet).with_style(content.bullet_style);
-                xml.push_str(&generate_bullet_paragraph_from_point(&bp, &default_props));
-            }
-        }
-
-        xml.push_str(
-            r#"
-</p:txBody>
-</p:sp>"#
-        );
+        xml.push_str(&generate_content_shape(content, 3, (457200, 1600200, 8230200, 4572000), 28));
     }
 
     // Render additional content (shapes, images, code blocks, connectors)
-- 
2.43.0


From 47968250916acb537c7da43d002d64d741ce6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:52 +0000
Subject: [PATCH 49/77] fix: web pages keep content before the first heading,
 nested lists, word boundaries and overflowing items; deep pages no longer
 overflow

---
 src/web2ppt/converter.rs | 167 +++++++++++++++++----------------------
 src/web2ppt/parser.rs    | 105 ++++++++++++++++++------
 2 files changed, 154 insertions(+), 118 deletions(-)

diff --git a/src/web2ppt/converter.rs b/src/web2ppt/converter.rs
index cb3b4df..8d4dfa7 100644
--- a/src/web2ppt/converter.rs
+++ b/src/web2ppt/converter.rs
@@ -1,6 +1,6 @@
 //! Converter from web content to PowerPoint
 
-use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentType};
+use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentBlock, ContentType};
 use crate::{create_pptx_with_content, SlideContent, SlideLayout};
 
 /// Safely truncate text at char boundary
@@ -25,6 +25,12 @@ fn truncate_text(text: &str, max_len: usize) -> String {
     format!("{}...", &text[..end].trim_end())
 }
 
+/// The slide after one that is full
+fn continuation(slide: &SlideContent) -> SlideContent {
+    let title = slide.title.strip_suffix(" (cont.)").unwrap_or(&slide.title);
+    SlideContent::new(&format!("{} (cont.)", title)).layout(SlideLayout::TitleAndContent)
+}
+
 /// Options for conversion
 #[derive(Clone, Debug)]
 pub struct ConversionOptions {
@@ -148,22 +154,28 @@ impl Web2Ppt {
             return self.build_linear_slides(content, slides);
         }
 
-        for (heading, blocks) in groups {
+        // Content before the first heading has a slide of its own
+        let opening: Vec<_> = content.blocks.iter().take_while(|b| !b.is_heading()).collect();
+        let groups = groups
+            .into_iter()
+            .map(|(heading, blocks)| (heading.text.as_str(), blocks));
+
+        for (heading, blocks) in std::iter::once(("Overview", opening)).chain(groups) {
             if slides.len() >= self.config.max_slides {
                 break;
             }
 
-            let mut slide = SlideContent::new(&heading.text)
+            let mut slide = SlideContent::new(heading)
                 .layout(SlideLayout::TitleAndContent);
 
             let mut bullet_count = 0;
 
             for block in blocks {
-                if bullet_count >= self.config.max_bullets_per_slide {
+                if bullet_count >= self.max_bullets() {
                     // Start a new slide for overflow
+                    let next = continuation(&slide);
                     slides.push(slide);
-                    slide = SlideContent::new(&format!("{} (cont.)", heading.text))
-                        .layout(SlideLayout::TitleAndContent);
+                    slide = next;
                     bullet_count = 0;
 
                     if slides.len() >= self.config.max_slides {
@@ -171,47 +183,9 @@ impl Web2Ppt {
                     }
                 }
 
-                match &block.content_type {
-                    ContentType::Paragraph => {
-                        // Truncate long paragraphs - use char_indices for safe slicing
-                        let text = truncate_text(&block.text, 200);
-                        slide = slide.add_bullet(&text);
-                        bullet_count += 1;
-                    }
-                    ContentType::ListItem => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("• {}", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Quote => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("\"{}\"", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Code => {
-                        if self.config.include_code {
-                            let code = truncate_text(&block.text, 150);
-                            slide = slide.add_bullet(&format!("[Code] {}", code));
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Table(rows) => {
-                        if self.config.include_tables && !rows.is_empty() {
-                            let summary = format!("[Table: {} rows × {} cols]", 
-                                rows.len(), 
-                                rows.first().map(|r| r.len()).unwrap_or(0)
-                            );
-                            slide = slide.add_bullet(&summary);
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Image { alt, .. } => {
-                        if self.config.include_images && !alt.is_empty() {
-                            slide = slide.add_bullet(&format!("[Image: {}]", alt));
-                            bullet_count += 1;
-                        }
-                    }
-                    _ => {}
+                if let Some(text) = self.bullet_text(block) {
+                    slide = slide.add_bullet(&text);
+                    bullet_count += 1;
                 }
             }
 
@@ -224,6 +198,35 @@ impl Web2Ppt {
         Ok(())
     }
 
+    /// Most bullets a slide may have
+    fn max_bullets(&self) -> usize {
+        self.config.max_bullets_per_slide.max(1)
+    }
+
+    /// The bullet that shows a block, if it is to be shown
+    fn bullet_text(&self, block: &ContentBlock) -> Option<String> {
+        match &block.content_type {
+            // Truncate long paragraphs - use char_indices for safe slicing
+            ContentType::Paragraph => Some(truncate_text(&block.text, 200)),
+            ContentType::ListItem => Some(format!("• {}", truncate_text(&block.text, 180))),
+            ContentType::Quote => Some(format!("\"{}\"", truncate_text(&block.text, 180))),
+            ContentType::Code if self.config.include_code => {
+                Some(format!("[Code] {}", truncate_text(&block.text, 150)))
+            }
+            ContentType::Table(rows) if self.config.include_tables && !rows.is_empty() => {
+                Some(format!(
+                    "[Table: {} rows × {} cols]",
+                    rows.len(),
+                    rows.first().map(|r| r.len()).unwrap_or(0)
+                ))
+            }
+            ContentType::Image { alt, .. } if self.config.include_images && !alt.is_empty() => {
+                Some(format!("[Image: {}]", alt))
+            }
+            _ => None,
+        }
+    }
+
     /// Build slides linearly (not grouped)
     fn build_linear_slides(&self, content: &WebContent, slides: &mut Vec<SlideContent>) -> Result<()> {
         let mut current_slide: Option<SlideContent> = None;
@@ -261,58 +264,30 @@ impl Web2Ppt {
                     );
                     bullet_count = 0;
                 }
-                ContentType::Paragraph => {
+                _ => {
+                    let Some(text) = self.bullet_text(block) else {
+                        continue;
+                    };
+
                     // If no current slide, create one
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Overview")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count += 1;
-                        } else {
-                            // Start new continuation slide
-                            slides.push(slide.clone());
-                            let title = slide.title.clone();
-                            *slide = SlideContent::new(&format!("{} (cont.)", title))
-                                .layout(SlideLayout::TitleAndContent);
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count = 1;
-                        }
-                    }
-                }
-                ContentType::ListItem => {
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Key Points")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("• {}", text));
-                            bullet_count += 1;
-                        }
-                    }
-                }
-                ContentType::Quote => {
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("\"{}\"", text));
-                            bullet_count += 1;
-                        }
+                    let mut slide = current_slide.take().unwrap_or_else(|| {
+                        let title = match block.content_type {
+                            ContentType::ListItem => "Key Points",
+                            _ => "Overview",
+                        };
+                        SlideContent::new(title).layout(SlideLayout::TitleAndContent)
+                    });
+
+                    if bullet_count >= self.max_bullets() {
+                        // Start new continuation slide
+                        let next = continuation(&slide);
+                        slides.push(slide);
+                        slide = next;
+                        bullet_count = 0;
                     }
+                    current_slide = Some(slide.add_bullet(&text));
+                    bullet_count += 1;
                 }
-                _ => {}
             }
         }
 
diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index e54a2fb..ed02c80 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -132,9 +132,9 @@ impl WebContent {
         for block in &self.blocks {
             if block.is_heading() {
                 // Save previous group
+                let previous = std::mem::take(&mut current_content);
                 if let Some(heading) = current_heading {
-                    groups.push((heading, current_content));
-                    current_content = Vec::new();
+                    groups.push((heading, previous));
                 }
                 current_heading = Some(block);
             } else {
@@ -193,7 +193,7 @@ impl WebParser {
         // Try <title> tag first
         if let Ok(selector) = Selector::parse("title") {
             if let Some(element) = document.select(&selector).next() {
-                let title = element.text().collect::<String>().trim().to_string();
+                let title = self.clean_text(&element);
                 if !title.is_empty() {
                     return title;
                 }
@@ -203,7 +203,7 @@ impl WebParser {
         // Try h1
         if let Ok(selector) = Selector::parse("h1") {
             if let Some(element) = document.select(&selector).next() {
-                let title = element.text().collect::<String>().trim().to_string();
+                let title = self.clean_text(&element);
                 if !title.is_empty() {
                     return title;
                 }
@@ -290,18 +290,35 @@ impl WebParser {
         let main = main_element.ok_or(Web2PptError::NoContent)?;
 
         // Extract content in document order by walking the DOM
-        self.walk_element(&main, content, 0);
+        // (without recursion: pages may nest deeper than the stack allows)
+        let mut open = vec![(main, 0u8)];
+        while let Some((element, level)) = open.pop() {
+            if !self.visit_element(&element, content, level) {
+                continue;
+            }
+            let tag_name = element.value().name();
+            let is_list = matches!(tag_name, "ul" | "ol");
+            let level = level.saturating_add(is_list as u8);
+            let inner = match tag_name {
+                // Their text is taken as a whole
+                "p" | "li" | "blockquote" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
+                    images_and_lists(&element)
+                }
+                _ => element.children().filter_map(ElementRef::wrap).collect(),
+            };
+            open.extend(inner.into_iter().rev().map(|child| (child, level)));
+        }
 
         Ok(())
     }
 
-    /// Walk element tree and extract content in order
-    fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) {
+    /// Extract the content of an element; whether its children are still to be visited
+    fn visit_element(&self, element: &ElementRef, content: &mut WebContent, level: u8) -> bool {
         // Skip script, style, nav, footer, aside, header elements
         let tag_name = element.value().name();
         let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe"];
         if skip_tags.contains(&tag_name) {
-            return;
+            return false;
         }
 
         // Check for class/id names that indicate non-content (but be less aggressive)
@@ -310,7 +327,7 @@ impl WebParser {
             // Only skip if clearly navigation/ads
             let skip_classes = ["advertisement", "ad-container", "social-share", "comment-section"];
             if skip_classes.iter().any(|c| class_lower.contains(c)) {
-                return;
+                return false;
             }
         }
 
@@ -338,7 +355,7 @@ impl WebParser {
             "li" => {
                 let text = self.clean_text(element);
                 if !text.is_empty() && text.len() < 500 {
-                    content.blocks.push(ContentBlock::new(ContentType::ListItem, &text).with_level(depth));
+                    content.blocks.push(ContentBlock::new(ContentType::ListItem, &text).with_level(level.saturating_sub(1)));
                 }
             }
             "blockquote" => {
@@ -355,7 +372,7 @@ impl WebParser {
                         content.blocks.push(ContentBlock::new(ContentType::Code, text));
                     }
                 }
-                return; // Don't recurse into code blocks
+                return false; // Don't recurse into code blocks
             }
             "img" => {
                 if self.config.include_images {
@@ -375,7 +392,7 @@ impl WebParser {
                 if self.config.include_tables {
                     self.extract_table(element, content);
                 }
-                return; // Don't recurse into tables
+                return false; // Don't recurse into tables
             }
             "a" => {
                 // Extract important links
@@ -392,20 +409,13 @@ impl WebParser {
             _ => {}
         }
 
-        // Always recurse into children (except for leaf elements we've already processed)
-        let no_recurse_tags = ["p", "li", "pre", "code", "img", "table", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6"];
-        if !no_recurse_tags.contains(&tag_name) {
-            for child in element.children() {
-                if let Some(child_elem) = ElementRef::wrap(child) {
-                    self.walk_element(&child_elem, content, depth + 1);
-                }
-            }
-        }
+        // Always recurse into children
+        true
     }
 
     /// Clean and normalize text
     fn clean_text(&self, element: &ElementRef) -> String {
-        let text: String = element.text().collect();
+        let text = visible_text(element);
         // Normalize whitespace
         let text = text.split_whitespace().collect::<Vec<_>>().join(" ");
         text.trim().to_string()
@@ -441,6 +451,57 @@ impl WebParser {
     }
 }
 
+/// The images inside an element, and for a list item the lists that are not
+/// inside another of them
+fn images_and_lists<'a>(element: &ElementRef<'a>) -> Vec<ElementRef<'a>> {
+    let in_item = element.value().name() == "li";
+    let mut found = Vec::new();
+    let mut open = vec![*element];
+    while let Some(element) = open.pop() {
+        match element.value().name() {
+            "img" => found.push(element),
+            "ul" | "ol" if in_item => found.push(element),
+            _ => open.extend(element.children().rev().filter_map(ElementRef::wrap)),
+        }
+    }
+    found
+}
+
+/// The text of an element, with a space where blocks and line breaks part it.
+/// Scripts and styles are not text, and lists inside a list item are not its text.
+fn visible_text(element: &ElementRef) -> String {
+    let in_item = element.value().name() == "li";
+    let mut text = String::new();
+    let mut open = vec![(**element, false)];
+    while let Some((node, leaving)) = open.pop() {
+        if let Some(part) = node.value().as_text() {
+            text.push_str(part);
+            continue;
+        }
+        let Some(inner) = node.value().as_element() else {
+            continue;
+        };
+        let name = inner.name();
+        let inline = matches!(
+            name,
+            "a" | "abbr" | "b" | "bdi" | "bdo" | "cite" | "code" | "data" | "del" | "dfn"
+                | "em" | "font" | "i" | "ins" | "kbd" | "label" | "mark" | "q" | "s" | "samp"
+                | "small" | "span" | "strike" | "strong" | "sub" | "sup" | "time" | "tt"
+                | "u" | "var" | "wbr"
+        );
+        if !inline {
+            text.push(' ');
+        }
+        let hidden = matches!(name, "script" | "style" | "noscript" | "template")
+            || (in_item && matches!(name, "ul" | "ol"));
+        if !leaving && !hidden {
+            open.push((node, true));
+            open.extend(node.children().rev().map(|child| (child, false)));
+        }
+    }
+    text
+}
+
 impl Default for WebParser {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 03c47ff08654c7a1e0b628eb1c8591a9473f4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:12 +0000
Subject: [PATCH 50/77] fix: tables inside tables of a web page count as text
 of their cell, and take linear time

---
 src/web2ppt/parser.rs | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index ed02c80..a64e5eb 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -425,20 +425,14 @@ impl WebParser {
     fn extract_table(&self, element: &ElementRef, content: &mut WebContent) {
         let mut rows: Vec<Vec<String>> = Vec::new();
 
-        if let Ok(row_selector) = Selector::parse("tr") {
-            for row in element.select(&row_selector) {
-                let mut cells: Vec<String> = Vec::new();
-
-                if let Ok(cell_selector) = Selector::parse("th, td") {
-                    for cell in row.select(&cell_selector) {
-                        let text = self.clean_text(&cell);
-                        cells.push(text);
-                    }
-                }
-
-                if !cells.is_empty() {
-                    rows.push(cells);
-                }
+        for row in nearest(element, &["tr"], &["table"]) {
+            let cells: Vec<String> = nearest(&row, &["th", "td"], &["table"])
+                .iter()
+                .map(|cell| self.clean_text(cell))
+                .collect();
+
+            if !cells.is_empty() {
+                rows.push(cells);
             }
         }
 
@@ -454,14 +448,23 @@ impl WebParser {
 /// The images inside an element, and for a list item the lists that are not
 /// inside another of them
 fn images_and_lists<'a>(element: &ElementRef<'a>) -> Vec<ElementRef<'a>> {
-    let in_item = element.value().name() == "li";
+    match element.value().name() {
+        "li" => nearest(element, &["img", "ul", "ol"], &[]),
+        _ => nearest(element, &["img"], &[]),
+    }
+}
+
+/// The elements of these names inside an element, in order, leaving out those
+/// inside one of them or inside one of the names to skip
+fn nearest<'a>(element: &ElementRef<'a>, names: &[&str], skip: &[&str]) -> Vec<ElementRef<'a>> {
     let mut found = Vec::new();
-    let mut open = vec![*element];
+    let mut open: Vec<_> = element.children().rev().filter_map(ElementRef::wrap).collect();
     while let Some(element) = open.pop() {
-        match element.value().name() {
-            "img" => found.push(element),
-            "ul" | "ol" if in_item => found.push(element),
-            _ => open.extend(element.children().rev().filter_map(ElementRef::wrap)),
+        let name = element.value().name();
+        if names.contains(&name) {
+            found.push(element);
+        } else if !skip.contains(&name) {
+            open.extend(element.children().rev().filter_map(ElementRef::wrap));
         }
     }
     found
-- 
2.43.0


From 6dc881e656cfe6584f42236d9b85b8ba5759ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 51/77] fix: HTML export shows the deck text literally, its
 lists, tables, shape text and image files

---
 src/export/html.rs | 173 +++++++++++++++++++++++++++++++++------------
 1 file changed, 128 insertions(+), 45 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 8aad9a2..ff66a73 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -1,6 +1,7 @@
 use crate::api::Presentation;
-use crate::generator::{SlideContent, Image};
+use crate::generator::{BulletPoint, BulletStyle, SlideContent, Image};
 use crate::exc::Result;
+use crate::generator::slide_content::bullet::MAX_BULLET_LEVEL;
 
 /// Export options for HTML output
 #[derive(Clone, Debug)]
@@ -69,7 +70,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     html.push_str("<!DOCTYPE html>\n<html>\n<head>\n");
     html.push_str("<meta charset=\"UTF-8\">\n");
     html.push_str("<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
-    html.push_str(&format!("<title>{}</title>\n", presentation.get_title()));
+    html.push_str(&format!("<title>{}</title>\n", escape_html(presentation.get_title())));
 
     // Enhanced CSS
     html.push_str("<style>\n");
@@ -97,12 +98,12 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
 
     // Title Slide (Presentation Title)
     html.push_str("<div class=\"slide title-slide\" data-slide=\"0\">\n");
-    html.push_str(&format!("<h1>{}</h1>\n", presentation.get_title()));
+    html.push_str(&format!("<h1>{}</h1>\n", escape_text(presentation.get_title())));
     html.push_str("</div>\n");
 
     // Slides
     for (i, slide) in presentation.slides().iter().enumerate() {
-        html.push_str(&render_slide_with_options(slide, i + 1, options));
+        html.push_str(&render_slide_with_options(slide, i + 1, options)?);
     }
 
     // Navigation controls
@@ -119,7 +120,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     Ok(html)
 }
 
-fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlExportOptions) -> String {
+fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlExportOptions) -> Result<String> {
     let mut html = String::new();
 
     html.push_str(&format!("<div class=\"slide\" id=\"slide-{}\" data-slide=\"{}\">\n", index, index));
@@ -128,18 +129,21 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str(&format!("<div class=\"slide-number\">{}</div>\n", index));
 
     // Title
-    html.push_str(&format!("<h2>{}</h2>\n", slide.title));
+    html.push_str(&format!("<h2>{}</h2>\n", escape_text(&slide.title)));
 
     // Content Container
     html.push_str("<div class=\"content\">\n");
 
     // Bullets / Content
-    if !slide.content.is_empty() {
-        html.push_str("<ul>\n");
-        for item in &slide.content {
-            html.push_str(&format!("<li>{}</li>\n", item));
-        }
-        html.push_str("</ul>\n");
+    if !slide.bullets.is_empty() {
+        html.push_str(&render_bullets_html(&slide.bullets));
+    } else if !slide.content.is_empty() {
+        let bullets: Vec<BulletPoint> = slide
+            .content
+            .iter()
+            .map(|item| BulletPoint::new(item).with_style(slide.bullet_style))
+            .collect();
+        html.push_str(&render_bullets_html(&bullets));
     }
 
     // Tables
@@ -148,16 +152,22 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     }
 
     // Images
-    for image in &slide.images {
-        if let Some(img_html) = render_image_with_options(image, options) {
+    for (i, image) in slide.images.iter().enumerate() {
+        let name = format!("slide_img_{}_{}", index, i + 1);
+        if let Some(img_html) = render_image_with_options(image, &name, options)? {
             html.push_str(&img_html);
         }
     }
 
+    // Shapes with text
+    for text in slide.shapes.iter().filter_map(|shape| shape.text.as_deref()) {
+        html.push_str(&format!("<div class=\"shape\">{}</div>\n", escape_text(text)));
+    }
+
     // Code Blocks
     for code in &slide.code_blocks {
         if options.syntax_highlight {
-            html.push_str(&format!("<pre><code class=\"language-{}\">", code.language));
+            html.push_str(&format!("<pre><code class=\"language-{}\">", escape_html(&code.language)));
         } else {
             html.push_str("<pre><code>");
         }
@@ -168,30 +178,92 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     // Speaker Notes
     if options.include_notes
         && let Some(ref notes) = slide.notes {
-            html.push_str(&format!("<div class=\"speaker-notes\"><strong>Notes:</strong> {}</div>\n", escape_html(notes)));
+            html.push_str(&format!("<div class=\"speaker-notes\"><strong>Notes:</strong> {}</div>\n", escape_text(notes)));
         }
 
     html.push_str("</div>\n"); // content
     html.push_str("</div>\n"); // slide
 
+    Ok(html)
+}
+
+/// Render bullets as lists, nested by level
+fn render_bullets_html(bullets: &[BulletPoint]) -> String {
+    let mut html = String::new();
+    let mut open: Vec<&str> = Vec::new();
+
+    for bullet in bullets {
+        let depth = bullet.level.min(MAX_BULLET_LEVEL) as usize + 1;
+        let (tag, attrs) = match bullet.style {
+            BulletStyle::Number => ("ol", ""),
+            BulletStyle::LetterLower => ("ol", " type=\"a\""),
+            BulletStyle::LetterUpper => ("ol", " type=\"A\""),
+            BulletStyle::RomanLower => ("ol", " type=\"i\""),
+            BulletStyle::RomanUpper => ("ol", " type=\"I\""),
+            BulletStyle::None => ("ul", " style=\"list-style-type: none\""),
+            BulletStyle::Bullet | BulletStyle::Custom(_) => ("ul", ""),
+        };
+
+        while open.len() > depth {
+            html.push_str(&format!("</li>\n</{}>\n", open.pop().unwrap_or("ul")));
+        }
+        if open.len() == depth {
+            html.push_str("</li>\n");
+            if open.last() != Some(&tag) {
+                html.push_str(&format!("</{}>\n", open.pop().unwrap_or("ul")));
+            }
+        }
+        while open.len() < depth {
+            open.push(tag);
+            html.push_str(&format!("<{}{}>\n", tag, attrs));
+            if open.len() < depth {
+                // A level without an item of its own
+                html.push_str("<li style=\"list-style-type: none\">\n");
+            }
+        }
+
+        html.push_str(&format!("<li>{}", escape_text(&bullet.text)));
+    }
+
+    while let Some(tag) = open.pop() {
+        html.push_str(&format!("</li>\n</{}>\n", tag));
+    }
+
     html
 }
 
 /// Render a table as HTML
-fn render_table_html(_table: &crate::generator::Table) -> String {
+fn render_table_html(table: &crate::generator::Table) -> String {
     let mut html = String::new();
     html.push_str("<table class=\"ppt-table\">\n");
-
-    // Render rows (assuming table has row data structure)
-    // This is a simplified version - you may need to adapt based on actual Table structure
     html.push_str("<tbody>\n");
-    html.push_str("<tr><td>Table content</td></tr>\n"); // Placeholder
-    html.push_str("</tbody>\n");
 
+    for row in &table.rows {
+        html.push_str("<tr>");
+        // Cells covered by a merged cell are part of it
+        for cell in row.cells.iter().filter(|cell| !cell.h_merge && !cell.v_merge) {
+            html.push_str("<td");
+            if let Some(span) = cell.grid_span.filter(|span| *span > 1) {
+                html.push_str(&format!(" colspan=\"{}\"", span));
+            }
+            if let Some(span) = cell.row_span.filter(|span| *span > 1) {
+                html.push_str(&format!(" rowspan=\"{}\"", span));
+            }
+            html.push_str(&format!(">{}</td>", escape_text(&cell.text)));
+        }
+        html.push_str("</tr>\n");
+    }
+
+    html.push_str("</tbody>\n");
     html.push_str("</table>\n");
     html
 }
 
+/// Escape text and keep its line breaks
+fn escape_text(text: &str) -> String {
+    escape_html(text).replace('\n', "<br>\n")
+}
+
 /// Escape HTML entities
 fn escape_html(text: &str) -> String {
     text.replace('&', "&amp;")
@@ -201,37 +273,48 @@ fn escape_html(text: &str) -> String {
         .replace('\'', "&#39;")
 }
 
-fn render_image_with_options(image: &Image, options: &HtmlExportOptions) -> Option<String> {
-    let bytes = image.get_bytes()?;
-    let mime = match image.format.to_lowercase().as_str() {
-        "jpg" | "jpeg" => "image/jpeg",
-        "png" => "image/png",
-        "gif" => "image/gif",
-        "svg" => "image/svg+xml",
-        _ => "application/octet-stream",
+fn render_image_with_options(
+    image: &Image,
+    name: &str,
+    options: &HtmlExportOptions,
+) -> Result<Option<String>> {
+    let Some(bytes) = image.get_bytes() else {
+        return Ok(None);
+    };
+    let format = image.format.to_lowercase();
+    let (mime, extension) = match format.as_str() {
+        "jpg" | "jpeg" => ("image/jpeg", "jpg"),
+        "png" => ("image/png", "png"),
+        "gif" => ("image/gif", "gif"),
+        "svg" => ("image/svg+xml", "svg"),
+        "bmp" => ("image/bmp", "bmp"),
+        "webp" => ("image/webp", "webp"),
+        "tif" | "tiff" => ("image/tiff", "tiff"),
+        _ => ("application/octet-stream", "bin"),
     };
 
-    if options.export_images_as_files {
-        // Generate image filename and reference
-        let filename = format!("slide_img_{}.{}", image.filename, image.format);
+    let source = if options.export_images_as_files {
+        // Write the image and refer to its file
+        let filename = format!("{}.{}", name, extension);
         let filepath = if let Some(ref dir) = options.image_output_dir {
+            std::fs::create_dir_all(dir)?;
             format!("{}/{}", dir, filename)
         } else {
-            filename.clone()
+            filename
         };
-
-        Some(format!(
-            "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
-            filepath, image.filename
-        ))
+        std::fs::write(&filepath, &bytes)?;
+        filepath
     } else {
         // Use base64 encoding
-        let b64 = base64_encode(&bytes);
-        Some(format!(
-            "<div class=\"image-container\"><img src=\"data:{};base64,{}\" alt=\"{}\" /></div>\n",
-            mime, b64, image.filename
-        ))
-    }
+        format!("data:{};base64,{}", mime, base64_encode(&bytes))
+    };
+
+    let alt = image.alt_text.as_deref().unwrap_or(&image.filename);
+    Ok(Some(format!(
+        "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
+        escape_html(&source),
+        escape_html(alt)
+    )))
 }
 
 // Simple base64 encoder
-- 
2.43.0


From 62a78df78f827a409f5b070cf836e99c888d2556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 52/77] fix: Markdown export keeps the deck's texts, list
 levels and numbers, tables, code and frontmatter intact

---
 src/export/md.rs | 171 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 132 insertions(+), 39 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..c73a4c6 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -5,6 +5,7 @@
 
 use crate::api::Presentation;
 use crate::exc::Result;
+use crate::generator::{BulletPoint, BulletStyle};
 
 /// Export options for Markdown generation
 #[derive(Debug, Clone)]
@@ -94,14 +95,14 @@ pub fn export_to_markdown_with_options(
     // YAML frontmatter
     if options.include_frontmatter {
         md.push_str("---\n");
-        md.push_str(&format!("title: \"{}\"\n", escape_yaml(presentation.get_title())));
+        md.push_str(&format!("title: {}\n", escape_yaml(presentation.get_title())));
         md.push_str(&format!("slides: {}\n", presentation.slide_count()));
         md.push_str("generator: ppt-rs\n");
         md.push_str("---\n\n");
     }
 
     // Presentation title as main heading
-    md.push_str(&format!("# {}\n\n", presentation.get_title()));
+    md.push_str(&format!("# {}\n\n", escape_text(presentation.get_title())));
 
     // Export each slide
     for (i, slide) in presentation.slides().iter().enumerate() {
@@ -114,21 +115,27 @@ pub fn export_to_markdown_with_options(
 
         // Slide number header
         if options.include_slide_numbers {
-            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_markdown(&slide.title)));
+            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_text(&slide.title)));
         } else {
-            md.push_str(&format!("## {}\n\n", escape_markdown(&slide.title)));
+            md.push_str(&format!("## {}\n\n", escape_text(&slide.title)));
         }
 
         // Bullet content
-        if !slide.content.is_empty() {
-            for item in &slide.content {
-                md.push_str(&format!("- {}\n", escape_markdown(item)));
-            }
+        if !slide.bullets.is_empty() {
+            md.push_str(&export_bullets(&slide.bullets));
+            md.push('\n');
+        } else if !slide.content.is_empty() {
+            let bullets: Vec<BulletPoint> = slide
+                .content
+                .iter()
+                .map(|item| BulletPoint::new(item).with_style(slide.bullet_style))
+                .collect();
+            md.push_str(&export_bullets(&bullets));
             md.push('\n');
         }
 
         // Table export (GFM format)
-        if options.use_gfm_tables && slide.has_table
+        if options.use_gfm_tables
             && let Some(table) = &slide.table {
                 md.push_str(&export_table_to_gfm(table));
                 md.push('\n');
@@ -137,24 +144,35 @@ pub fn export_to_markdown_with_options(
         // Images
         if options.include_images && !slide.images.is_empty() {
             for (img_idx, image) in slide.images.iter().enumerate() {
-                let alt_text = format!("Image {} on slide {}", img_idx + 1, slide_num);
+                let alt_text = match &image.alt_text {
+                    Some(alt) => escape_markdown(&alt.replace(['\n', '\r'], " ")),
+                    None => format!("Image {} on slide {}", img_idx + 1, slide_num),
+                };
                 // Note: Actual image data would need to be saved separately
                 md.push_str(&format!(
-                    "![{}](images/slide{}_image{}{})\n\n",
+                    "![{}](images/slide{}_image{}.{})\n\n",
                     alt_text,
                     slide_num,
                     img_idx + 1,
-                    image.format.to_lowercase().replace("jpeg", ".jpg").replace("png", ".png")
+                    image.format.to_lowercase().replace("jpeg", "jpg")
                 ));
             }
         }
 
+        // Shapes with text
+        for text in slide.shapes.iter().filter_map(|shape| shape.text.as_deref()) {
+            md.push_str(&format!("{}\n\n", escape_text(text)));
+        }
+
         // Code blocks
         if !slide.code_blocks.is_empty() {
             for code_block in &slide.code_blocks {
+                // The fence must be longer than any run of backticks in the code
+                let longest = code_block.code.split(|c| c != '`').map(str::len).max().unwrap_or(0);
                 md.push_str(&format!(
-                    "```{lang}\n{code}\n```\n\n",
-                    lang = &code_block.language,
+                    "{fence}{lang}\n{code}\n{fence}\n\n",
+                    fence = "`".repeat(longest.max(2) + 1),
+                    lang = code_block.language.replace(['`', '\n', '\r'], " ").trim(),
                     code = &code_block.code
                 ));
             }
@@ -165,7 +183,8 @@ pub fn export_to_markdown_with_options(
         if options.include_notes && has_notes {
             md.push_str("**Notes:**\n\n");
             if let Some(notes) = &slide.notes {
-                md.push_str(&format!("> {}\n\n", escape_markdown(notes)));
+                md.push_str(&export_quote(notes));
+                md.push('\n');
             }
         }
     }
@@ -173,33 +192,76 @@ pub fn export_to_markdown_with_options(
     Ok(md)
 }
 
+/// Export bullets as Markdown lists, nested by level
+fn export_bullets(bullets: &[BulletPoint]) -> String {
+    let mut md = String::new();
+    // Per open list: whether it is numbered, its last number, and the width of its marker
+    let mut open: Vec<(bool, usize, usize)> = Vec::new();
+
+    for bullet in bullets {
+        let numbered = !matches!(
+            bullet.style,
+            BulletStyle::Bullet | BulletStyle::Custom(_) | BulletStyle::None
+        );
+        // An item can be at most one level below the item before it
+        let depth = (bullet.level as usize).min(open.len());
+        open.truncate(depth + 1);
+        if open.len() > depth && open[depth].0 != numbered {
+            open.truncate(depth);
+        }
+        if open.len() == depth {
+            open.push((numbered, 0, 0));
+        }
+        let indent: usize = open[..depth].iter().map(|(_, _, width)| width).sum();
+        open[depth].1 += 1;
+        let marker = if numbered { format!("{}. ", open[depth].1) } else { "- ".to_string() };
+        open[depth].2 = marker.len();
+        md.push_str(&format!("{}{}{}\n", " ".repeat(indent), marker, escape_text(&bullet.text)));
+    }
+
+    md
+}
+
+/// Export a text as a block quote, keeping its lines
+fn export_quote(text: &str) -> String {
+    let lines: Vec<&str> = text.lines().collect();
+    let mut md = String::new();
+
+    for (i, line) in lines.iter().enumerate() {
+        if line.trim().is_empty() {
+            md.push_str(">\n");
+            continue;
+        }
+        let followed = lines.get(i + 1).is_some_and(|next| !next.trim().is_empty());
+        md.push_str(&format!("> {}{}\n", escape_text(line), if followed { "\\" } else { "" }));
+    }
+
+    md
+}
+
 /// Export a table to GitHub Flavored Markdown format
 fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     let mut md = String::new();
+    let columns = table.rows.iter().map(|row| row.cells.len()).max().unwrap_or(0);
+    if columns == 0 {
+        return md;
+    }
 
-    // Header row
-    if let Some(first_row) = table.rows.first() {
+    for (i, row) in table.rows.iter().enumerate() {
         md.push_str("| ");
-        for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+        for column in 0..columns {
+            // Cells covered by a merged cell are part of it
+            if let Some(cell) = row.cells.get(column).filter(|cell| !cell.h_merge && !cell.v_merge) {
+                md.push_str(&escape_text(&cell.text));
+            }
             md.push_str(" | ");
         }
         md.push('\n');
 
-        // Separator
-        md.push('|');
-        for _ in &first_row.cells {
-            md.push_str(" --- |");
-        }
-        md.push('\n');
-
-        // Data rows
-        for row in table.rows.iter().skip(1) {
-            md.push_str("| ");
-            for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
-                md.push_str(" | ");
-            }
+        // The first row is the header
+        if i == 0 {
+            md.push('|');
+            md.push_str(&" --- |".repeat(columns));
             md.push('\n');
         }
     }
@@ -207,6 +269,20 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     md
 }
 
+/// Escape a text so that it stays on one line and begins no Markdown block
+fn escape_text(text: &str) -> String {
+    let text = escape_markdown(text.replace("\r\n", "\n").replace('\r', "\n").trim());
+    let (number, rest) = text.split_at(text.bytes().take_while(u8::is_ascii_digit).count());
+    let text = if text.starts_with(['-', '+', '=']) {
+        format!("\\{text}")
+    } else if !number.is_empty() && rest.starts_with(['.', ')']) {
+        format!("{number}\\{rest}")
+    } else {
+        text
+    };
+    text.lines().map(str::trim).collect::<Vec<_>>().join("<br>")
+}
+
 /// Escape special Markdown characters
 fn escape_markdown(text: &str) -> String {
     text.replace('\\', "\\\\")
@@ -218,16 +294,33 @@ fn escape_markdown(text: &str) -> String {
         .replace('#', "\\#")
         .replace('<', "\\<")
         .replace('>', "\\>")
+        .replace('|', "\\|")
+        .replace('~', "\\~")
+        .replace('&', "\\&")
 }
 
-/// Escape special YAML characters in frontmatter
+/// Write text as a YAML scalar in frontmatter
 fn escape_yaml(text: &str) -> String {
-    if text.contains('\n') || text.contains('"') || text.contains('\\') {
-        // Use literal block scalar for multiline or complex strings
-        format!("|\n  {}", text.replace('\n', "\n  "))
-    } else {
-        text.replace('"', "\\\"").replace('\\', "\\\\")
+    // A literal block can hold neither control characters nor every arrangement of blanks
+    let literal = text.contains('\n')
+        && !text.starts_with(char::is_whitespace)
+        && !text.ends_with(char::is_whitespace)
+        && !text.chars().any(|c| c.is_control() && c != '\n');
+    if literal {
+        return format!("|-\n  {}", text.replace('\n', "\n  "));
+    }
+    let mut scalar = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' => scalar.push_str("\\\""),
+            '\\' => scalar.push_str("\\\\"),
+            '\n' => scalar.push_str("\\n"),
+            c if c.is_control() => scalar.push_str(&format!("\\u{:04X}", c as u32)),
+            c => scalar.push(c),
+        }
     }
+    scalar.push('"');
+    scalar
 }
 
 #[cfg(test)]
-- 
2.43.0


From a4682ca624d579eb48567d5ff8ff25b1f2ed9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:07 +0000
Subject: [PATCH 53/77] fix: HTML export starts a new list where the numbering
 changes its form

---
 src/export/html.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index ff66a73..20c4bf4 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -190,11 +190,11 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
 /// Render bullets as lists, nested by level
 fn render_bullets_html(bullets: &[BulletPoint]) -> String {
     let mut html = String::new();
-    let mut open: Vec<&str> = Vec::new();
+    let mut open: Vec<(&str, &str)> = Vec::new();
 
     for bullet in bullets {
         let depth = bullet.level.min(MAX_BULLET_LEVEL) as usize + 1;
-        let (tag, attrs) = match bullet.style {
+        let list @ (tag, attrs) = match bullet.style {
             BulletStyle::Number => ("ol", ""),
             BulletStyle::LetterLower => ("ol", " type=\"a\""),
             BulletStyle::LetterUpper => ("ol", " type=\"A\""),
@@ -205,16 +205,18 @@ fn render_bullets_html(bullets: &[BulletPoint]) -> String {
         };
 
         while open.len() > depth {
-            html.push_str(&format!("</li>\n</{}>\n", open.pop().unwrap_or("ul")));
+            let (tag, _) = open.pop().unwrap_or(list);
+            html.push_str(&format!("</li>\n</{}>\n", tag));
         }
         if open.len() == depth {
             html.push_str("</li>\n");
-            if open.last() != Some(&tag) {
-                html.push_str(&format!("</{}>\n", open.pop().unwrap_or("ul")));
+            if open.last() != Some(&list) {
+                let (tag, _) = open.pop().unwrap_or(list);
+                html.push_str(&format!("</{}>\n", tag));
             }
         }
         while open.len() < depth {
-            open.push(tag);
+            open.push(list);
             html.push_str(&format!("<{}{}>\n", tag, attrs));
             if open.len() < depth {
                 // A level without an item of its own
@@ -225,7 +227,7 @@ fn render_bullets_html(bullets: &[BulletPoint]) -> String {
         html.push_str(&format!("<li>{}", escape_text(&bullet.text)));
     }
 
-    while let Some(tag) = open.pop() {
+    while let Some((tag, _)) = open.pop() {
         html.push_str(&format!("</li>\n</{}>\n", tag));
     }
 
-- 
2.43.0


From d03348f75fb326a7ed5d10ac9215ccbc895b26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:57 +0000
Subject: [PATCH 54/77] fix: PDF document export embeds the deck's pictures
 instead of failing on them

---
 src/export/pdf_export.rs | 52 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/export/pdf_export.rs b/src/export/pdf_export.rs
index 7ef48dd..5f62739 100644
--- a/src/export/pdf_export.rs
+++ b/src/export/pdf_export.rs
@@ -140,14 +140,60 @@ pub fn export_to_pdf_bytes(
         },
     )?;
 
-    let elements = pdfrs::elements::parse_markdown(&md);
+    let mut elements = pdfrs::elements::parse_markdown(&md);
+
+    // pdfrs reads pictures from files
+    let image_dir = std::env::temp_dir().join(format!("ppt_rs_pdf_images_{}", uuid::Uuid::new_v4()));
+    let written = write_images(presentation, &mut elements, &image_dir);
     let layout = match options.orientation {
         PdfOrientation::Portrait => pdfrs::pdf_generator::PageLayout::portrait(),
         PdfOrientation::Landscape => pdfrs::pdf_generator::PageLayout::landscape(),
     };
 
-    pdfrs::pdf_generator::generate_pdf_bytes(&elements, &options.font, options.font_size, layout)
-        .map_err(|e| PptxError::Generic(format!("pdfrs generation failed: {e}")))
+    let result = written.and_then(|()| {
+        pdfrs::pdf_generator::generate_pdf_bytes(&elements, &options.font, options.font_size, layout)
+            .map_err(|e| PptxError::Generic(format!("pdfrs generation failed: {e}")))
+    });
+    let _ = std::fs::remove_dir_all(&image_dir);
+    result
+}
+
+/// Write the pictures the elements refer to into a directory and point the elements there.
+///
+/// A picture `pdfrs` cannot embed is replaced by its alternative text.
+fn write_images(
+    presentation: &Presentation,
+    elements: &mut [pdfrs::elements::Element],
+    dir: &Path,
+) -> Result<()> {
+    use pdfrs::elements::Element;
+
+    for element in elements.iter_mut() {
+        let Element::Image { alt, path } = element else {
+            continue;
+        };
+        // Named by the Markdown export: images/slide<number>_image<number>.<extension>
+        let image = path
+            .strip_prefix("images/slide")
+            .and_then(|name| name.split_once('.'))
+            .and_then(|(name, _)| name.split_once("_image"))
+            .and_then(|(slide, image)| Some((slide.parse::<usize>().ok()?, image.parse::<usize>().ok()?)))
+            .and_then(|(slide, image)| {
+                presentation.slides().get(slide.checked_sub(1)?)?.images.get(image.checked_sub(1)?)
+            });
+        let mut file = None;
+        if let Some(bytes) = image.and_then(|image| image.get_bytes()) {
+            std::fs::create_dir_all(dir)?;
+            let name = dir.join(path.replace('/', "_")).to_string_lossy().into_owned();
+            std::fs::write(&name, bytes)?;
+            file = pdfrs::image::load_image(&name).is_ok().then_some(name);
+        }
+        *element = match file {
+            Some(file) => Element::Image { alt: std::mem::take(alt), path: file },
+            None => Element::Paragraph { text: format!("[{alt}]") },
+        };
+    }
+    Ok(())
 }
 
 /// Render a presentation to a PDF file using the pure-Rust `pdfrs` engine.
-- 
2.43.0


From 9039365ded8a12613c9eeb5fb3b33470f78d8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:57 +0000
Subject: [PATCH 55/77] fix: PDF pages show accented texts, code, line breaks
 and list numbers correctly and survive odd colours

---
 src/export/slide_render.rs | 176 +++++++++++++++++++++----------------
 1 file changed, 100 insertions(+), 76 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..0de114b 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -11,6 +11,7 @@
 
 use crate::api::Presentation;
 use crate::exc::{PptxError, Result};
+use crate::generator::slide_content::bullet::MAX_BULLET_LEVEL;
 use crate::generator::slide_content::{BulletStyle, SlideLayout, SlideContent};
 
 use pdfrs::pdf_generator::{PageLayout, PdfGenerator};
@@ -19,36 +20,29 @@ const FONT_HELVETICA: &str = "Helvetica";
 const FONT_HELVETICA_BOLD: &str = "Helvetica-Bold";
 const FONT_HELVETICA_OBLIQUE: &str = "Helvetica-Oblique";
 const FONT_HELVETICA_BOLD_OBLIQUE: &str = "Helvetica-BoldOblique";
+const FONT_COURIER: &str = "Courier";
 
 struct FontIds {
     helvetica: u32,
     helvetica_bold: u32,
     helvetica_oblique: u32,
     helvetica_bold_oblique: u32,
+    courier: u32,
 }
 
 fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
-    let helvetica = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA
-    ));
-    let helvetica_bold = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD
-    ));
-    let helvetica_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_OBLIQUE
-    ));
-    let helvetica_bold_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD_OBLIQUE
-    ));
+    let mut add = |name: &str| {
+        generator.add_object(format!(
+            "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
+            name
+        ))
+    };
     FontIds {
-        helvetica,
-        helvetica_bold,
-        helvetica_oblique,
-        helvetica_bold_oblique,
+        helvetica: add(FONT_HELVETICA),
+        helvetica_bold: add(FONT_HELVETICA_BOLD),
+        helvetica_oblique: add(FONT_HELVETICA_OBLIQUE),
+        helvetica_bold_oblique: add(FONT_HELVETICA_BOLD_OBLIQUE),
+        courier: add(FONT_COURIER),
     }
 }
 
@@ -63,7 +57,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.is_ascii() {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
@@ -79,6 +73,19 @@ fn escape_pdf_text(s: &str) -> String {
         .replace(')', "\\)")
 }
 
+/// Encode text for the standard fonts, which know the WinAnsi characters only
+fn encode_winansi(text: &str) -> Vec<u8> {
+    const HIGH: &str = "€\u{81}‚ƒ„…†‡ˆ‰Š‹Œ\u{8d}Ž\u{8f}\u{90}‘’“”•–—˜™š›œ\u{9d}žŸ";
+    text.chars()
+        .filter(|c| !c.is_control() || *c == '\t')
+        .map(|c| match c {
+            '\t' => b' ',
+            ' '..='~' | '\u{a0}'..='\u{ff}' => c as u8,
+            _ => HIGH.chars().position(|h| h == c).map_or(b'?', |i| 0x80 + i as u8),
+        })
+        .collect()
+}
+
 fn set_color(out: &mut Vec<u8>, r: f32, g: f32, b: f32) {
     out.extend_from_slice(format!("{:.3} {:.3} {:.3} rg\n", r, g, b).as_bytes());
 }
@@ -107,7 +114,9 @@ fn draw_text_line(
     set_font(out, font_name, font_size);
     out.extend_from_slice(b"BT\n");
     out.extend_from_slice(format!("{} {:.1} Td\n", x, y).as_bytes());
-    out.extend_from_slice(format!("({}) Tj\n", escape_pdf_text(text)).as_bytes());
+    out.push(b'(');
+    out.extend_from_slice(&encode_winansi(&escape_pdf_text(text)));
+    out.extend_from_slice(b") Tj\n");
     out.extend_from_slice(b"ET\n");
 }
 
@@ -120,8 +129,8 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     match style {
         BulletStyle::Bullet => "\u{2022}".to_string(),
         BulletStyle::Number => format!("{}.", index + 1),
-        BulletStyle::LetterLower => format!("{}.", char::from_u32(b'a' as u32 + index).unwrap_or('a')),
-        BulletStyle::LetterUpper => format!("{}.", char::from_u32(b'A' as u32 + index).unwrap_or('A')),
+        BulletStyle::LetterLower => format!("{}.", to_letters(index)),
+        BulletStyle::LetterUpper => format!("{}.", to_letters(index).to_uppercase()),
         BulletStyle::RomanLower => to_roman(index + 1).to_lowercase(),
         BulletStyle::RomanUpper => to_roman(index + 1),
         BulletStyle::Custom(ch) => ch.to_string(),
@@ -129,6 +138,12 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     }
 }
 
+/// a to z, then aa to zz, and so on
+fn to_letters(index: u32) -> String {
+    let letter = (b'a' + (index % 26) as u8) as char;
+    letter.to_string().repeat(index as usize / 26 + 1)
+}
+
 fn to_roman(mut num: u32) -> String {
     let pairs = [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
     let mut result = String::new();
@@ -166,40 +181,39 @@ fn render_slide(
         .map(hex_to_rgb)
         .unwrap_or((0.1, 0.1, 0.1));
 
-    let title_y = page_h - margin - title_size;
-
-    match slide.layout {
-        SlideLayout::CenteredTitle | SlideLayout::SectionHeader => {
-            let tw = approx_text_width(&slide.title, title_size);
-            let tx = (page_w - tw) / 2.0;
-            draw_text_line(
-                &mut cs,
-                &slide.title,
-                tx,
-                title_y,
-                font_name(title_bold, title_italic),
-                title_size,
-                tr, tg, tb,
-            );
+    let mut title_y = page_h - margin - title_size;
+
+    for (i, line) in slide.title.lines().enumerate() {
+        if i > 0 {
+            title_y -= title_size * 1.2;
         }
-        _ => {
-            draw_text_line(
-                &mut cs,
-                &slide.title,
-                margin,
-                title_y,
-                font_name(title_bold, title_italic),
-                title_size,
-                tr, tg, tb,
-            );
-            // Underline
-            if slide.title_underline {
-                set_color(&mut cs, tr, tg, tb);
-                cs.extend_from_slice(
-                    format!("{:.1} {:.1} m\n{:.1} {:.1} l\n1 w\nS\n", margin, title_y - 4.0, page_w - margin, title_y - 4.0).as_bytes(),
-                );
+        let title_x = match slide.layout {
+            SlideLayout::CenteredTitle | SlideLayout::SectionHeader => {
+                ((page_w - approx_text_width(line, title_size)) / 2.0).max(margin)
             }
-        }
+            _ => margin,
+        };
+        draw_text_line(
+            &mut cs,
+            line,
+            title_x,
+            title_y,
+            font_name(title_bold, title_italic),
+            title_size,
+            tr, tg, tb,
+        );
+    }
+    // Underline
+    if slide.title_underline
+        && !matches!(slide.layout, SlideLayout::CenteredTitle | SlideLayout::SectionHeader)
+    {
+        cs.extend_from_slice(
+            format!(
+                "{:.3} {:.3} {:.3} RG\n{:.1} {:.1} m\n{:.1} {:.1} l\n1 w\nS\n",
+                tr, tg, tb, margin, title_y - 4.0, page_w - margin, title_y - 4.0
+            )
+            .as_bytes(),
+        );
     }
 
     // Content
@@ -218,14 +232,22 @@ fn render_slide(
     let is_centered = matches!(slide.layout, SlideLayout::CenteredTitle | SlideLayout::SectionHeader);
 
     if !slide.bullets.is_empty() {
-        let mut numbered = 0u32;
+        // Per level, how its items are marked and how many there are
+        let mut counters: Vec<(BulletStyle, u32)> = Vec::new();
         for bp in &slide.bullets {
             if y < margin + line_height {
                 break;
             }
 
-            let prefix = bullet_prefix(bp.style, numbered);
-            let indent = (bp.level as f32) * 20.0;
+            let level = bp.level.min(MAX_BULLET_LEVEL) as usize;
+            counters.resize(level + 1, (BulletStyle::None, 0));
+            let counter = &mut counters[level];
+            if counter.0 != bp.style {
+                *counter = (bp.style, 0);
+            }
+            let prefix = bullet_prefix(bp.style, counter.1);
+            counter.1 += 1;
+            let indent = (level as f32) * 20.0;
             let bx = margin + indent;
 
             let fmt = bp.format.as_ref();
@@ -253,30 +275,30 @@ fn render_slide(
             }
 
             let text_x = bx + if prefix.is_empty() { 0.0 } else { 20.0 };
-            let text = &bp.text;
-            draw_text_line(
-                &mut cs,
-                text,
-                text_x,
-                y,
-                font_name(b_bold, b_italic),
-                b_size,
-                btr, btg, btb,
-            );
-
-            y -= line_height;
-            if matches!(bp.style, BulletStyle::Number | BulletStyle::LetterLower | BulletStyle::LetterUpper | BulletStyle::RomanLower | BulletStyle::RomanUpper) {
-                numbered += 1;
+            for text in bp.text.split('\n') {
+                if y < margin + line_height {
+                    break;
+                }
+                draw_text_line(
+                    &mut cs,
+                    text,
+                    text_x,
+                    y,
+                    font_name(b_bold, b_italic),
+                    b_size,
+                    btr, btg, btb,
+                );
+                y -= line_height;
             }
         }
     } else if !slide.content.is_empty() {
-        for line in &slide.content {
+        for line in slide.content.iter().flat_map(|text| text.split('\n')) {
             if y < margin + line_height {
                 break;
             }
             if is_centered {
                 let tw = approx_text_width(line, content_size);
-                let tx = (page_w - tw) / 2.0;
+                let tx = ((page_w - tw) / 2.0).max(margin);
                 draw_text_line(&mut cs, line, tx, y, font_name(content_bold, content_italic), content_size, cr, cg, cb);
             } else {
                 draw_text_line(&mut cs, line, margin, y, font_name(content_bold, content_italic), content_size, cr, cg, cb);
@@ -304,7 +326,7 @@ fn render_slide(
             if y < margin {
                 break;
             }
-            draw_text_line(&mut cs, line, margin + 8.0, y, "Courier", code_size, 0.1, 0.1, 0.1);
+            draw_text_line(&mut cs, line, margin + 8.0, y, FONT_COURIER, code_size, 0.1, 0.1, 0.1);
             y -= code_line_h;
         }
         y -= line_height * 0.5;
@@ -346,6 +368,7 @@ fn add_page(
              /{} {} 0 R \
              /{} {} 0 R \
              /{} {} 0 R \
+             /{} {} 0 R \
          >> >>\n\
          >>\n",
         pages_obj_id,
@@ -356,6 +379,7 @@ fn add_page(
         FONT_HELVETICA_BOLD, font_ids.helvetica_bold,
         FONT_HELVETICA_OBLIQUE, font_ids.helvetica_oblique,
         FONT_HELVETICA_BOLD_OBLIQUE, font_ids.helvetica_bold_oblique,
+        FONT_COURIER, font_ids.courier,
     );
     generator.add_object(page_dict)
 }
-- 
2.43.0


From 7513fc56af31d4e02e7d5cdd819edec7dffa3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:33 +0000
Subject: [PATCH 56/77] fix: markup nested too deep is an error instead of
 exhausting the stack

---
 src/oxml/xmlchemy.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index d360bb3..9e574c5 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -123,6 +123,10 @@ impl XmlElement {
     }
 }
 
+/// Deepest nesting of elements that is read. Documents nest some dozens of elements; far
+/// deeper ones would exhaust the stack of whoever walks through the tree.
+const MAX_DEPTH: usize = 512;
+
 /// XML Parser for Office XML documents
 pub struct XmlParser;
 
@@ -146,6 +150,12 @@ impl XmlParser {
                     attributes,
                     namespace,
                 }) => {
+                    if stack.len() >= MAX_DEPTH {
+                        return Err(PptxError::XmlParse(format!(
+                            "Elements nested deeper than {MAX_DEPTH} levels"
+                        )));
+                    }
+
                     let tag = if let Some(ref prefix) = name.prefix {
                         format!("{}:{}", prefix, name.local_name)
                     } else {
-- 
2.43.0


From 50ee5e1c363e553d1d465eaa65ff2c7d6587f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 57/77] fix: a colour text that is not hexadecimal digits no
 longer panics or counts signs as digits

---
 src/elements/color.rs       |  2 +-
 src/generator/shapes_xml.rs |  9 ++++++---
 src/helpers/colors.rs       | 19 ++++++++++++-------
 src/helpers/mod.rs          |  8 +++++---
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..04815f0 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index acd78ea..28f40ed 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -317,9 +317,12 @@ fn is_dark_color(hex_color: &str) -> bool {
         return false; // Default to light
     }
     
-    let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(255);
-    let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(255);
-    let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(255);
+    let channel = |range: std::ops::Range<usize>| {
+        hex.get(range).and_then(|pair| u8::from_str_radix(pair, 16).ok()).unwrap_or(255)
+    };
+    let r = channel(0..2);
+    let g = channel(2..4);
+    let b = channel(4..6);
     
     // Calculate relative luminance using sRGB formula
     let luminance = 0.299 * (r as f64) + 0.587 * (g as f64) + 0.114 * (b as f64);
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..4568124 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -17,6 +17,11 @@ pub struct ColorValue {
     pub a: u8, // Alpha channel (0-255, 255 = opaque)
 }
 
+/// Two hexadecimal digits of a color; `None` when there are none at that place
+pub(crate) fn hex_pair(hex: &str, range: std::ops::Range<usize>) -> Option<u8> {
+    u8::from_str_radix(hex.get(range)?, 16).ok()
+}
+
 impl ColorValue {
     /// Create a new color from RGB values
     pub fn rgb(r: u8, g: u8, b: u8) -> Self {
@@ -32,15 +37,15 @@ impl ColorValue {
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
         if hex.len() == 6 {
-            let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
-            let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
-            let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
+            let r = hex_pair(hex, 0..2).unwrap_or(0);
+            let g = hex_pair(hex, 2..4).unwrap_or(0);
+            let b = hex_pair(hex, 4..6).unwrap_or(0);
             Self::rgb(r, g, b)
         } else if hex.len() == 8 {
-            let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
-            let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
-            let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
-            let a = u8::from_str_radix(&hex[6..8], 16).unwrap_or(255);
+            let r = hex_pair(hex, 0..2).unwrap_or(0);
+            let g = hex_pair(hex, 2..4).unwrap_or(0);
+            let b = hex_pair(hex, 4..6).unwrap_or(0);
+            let a = hex_pair(hex, 6..8).unwrap_or(255);
             Self::rgba(r, g, b, a)
         } else {
             Self::rgb(0, 0, 0)
diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..4d34f2a 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -31,6 +31,8 @@ use crate::generator::{
 use crate::elements::{Color, RgbColor};
 use crate::core::Dimension;
 
+use colors::hex_pair;
+
 // Re-export color utilities
 pub use colors::ColorValue;
 pub use colors::{
@@ -230,9 +232,9 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
     if color.len() == 6 {
-        let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
-        let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
-        let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
+        let r = hex_pair(color, 0..2).unwrap_or(0);
+        let g = hex_pair(color, 2..4).unwrap_or(0);
+        let b = hex_pair(color, 4..6).unwrap_or(0);
         Color::Rgb(RgbColor::new(r, g, b))
     } else {
         Color::Rgb(RgbColor::new(0, 0, 0)) // Default to black
-- 
2.43.0


From b74f29c0a0c23ee71add98379c783467d903bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 58/77] fix: tables without columns are built instead of
 dividing by zero

---
 src/generator/table/style.rs | 2 +-
 src/helpers/tables.rs        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/generator/table/style.rs b/src/generator/table/style.rs
index 24ed8f0..a5a459c 100644
--- a/src/generator/table/style.rs
+++ b/src/generator/table/style.rs
@@ -29,7 +29,7 @@ pub fn header_cell(text: &str) -> TableCell {
 /// Build a positioned table from string rows with optional header styling.
 pub fn table_from_string_rows(rows: Vec<Vec<String>>, style_header: bool) -> Table {
     let col_count = rows.iter().map(|row| row.len()).max().unwrap_or(1);
-    let col_width = DEFAULT_TABLE_WIDTH / col_count as u32;
+    let col_width = DEFAULT_TABLE_WIDTH / col_count.max(1) as u32;
     let col_widths = vec![col_width; col_count];
 
     let mut builder = TableBuilder::new(col_widths);
diff --git a/src/helpers/tables.rs b/src/helpers/tables.rs
index b1f43c8..006707c 100644
--- a/src/helpers/tables.rs
+++ b/src/helpers/tables.rs
@@ -13,7 +13,7 @@ use crate::generator::{TableBuilder, TableCell, TableRow};
 /// let table = simple_table(3, 4); // 3 rows, 4 columns with equal widths
 /// ```
 pub fn simple_table(rows: usize, cols: usize) -> TableBuilder {
-    let col_width = 9144000 / cols as u32; // Divide slide width equally
+    let col_width = 9144000 / cols.max(1) as u32; // Divide slide width equally
     let column_widths = vec![col_width; cols];
     let mut builder = TableBuilder::new(column_widths);
 
@@ -64,7 +64,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
     let widths = if let Some(widths) = column_widths {
         widths.iter().map(|w| (w * 914400.0) as u32).collect()
     } else {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         vec![col_width; cols]
     };
 
@@ -89,7 +89,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
 /// ```
 pub fn table_with_header(headers: &[&str], data_rows: usize) -> TableBuilder {
     let cols = headers.len();
-    let col_width = 9144000 / cols as u32;
+    let col_width = 9144000 / cols.max(1) as u32;
     let column_widths = vec![col_width; cols];
 
     let mut builder = TableBuilder::new(column_widths);
@@ -124,7 +124,7 @@ pub struct QuickTable {
 impl QuickTable {
     /// Create a new quick table with equal column widths
     pub fn new(cols: usize) -> Self {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         let column_widths = vec![col_width; cols];
         Self {
             builder: TableBuilder::new(column_widths),
-- 
2.43.0


From 0f5f2689a6719117c09e89d8921d5d3e4a47fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 59/77] fix: layout helpers place empty, oversized and very
 large sets without wrapping around

---
 src/prelude.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index a09ae6e..2a9a728 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -111,7 +111,7 @@ pub mod font_sizes {
 
     /// Convert points to OOXML size units (hundredths of a point)
     pub fn to_emu(pt: u32) -> u32 {
-        pt * 100
+        pt.saturating_mul(100)
     }
 }
 
@@ -704,12 +704,12 @@ pub mod layouts {
 
     /// Center a shape on the slide (horizontal)
     pub fn center_x(shape_width: u32) -> u32 {
-        (SLIDE_WIDTH - shape_width) / 2
+        SLIDE_WIDTH.saturating_sub(shape_width) / 2
     }
 
     /// Center a shape on the slide (vertical)
     pub fn center_y(shape_height: u32) -> u32 {
-        (SLIDE_HEIGHT - shape_height) / 2
+        SLIDE_HEIGHT.saturating_sub(shape_height) / 2
     }
 
     /// Get position for centering a shape both horizontally and vertically
@@ -721,21 +721,33 @@ pub mod layouts {
     /// Returns Vec of (x, y) positions
     pub fn grid(rows: usize, cols: usize, cell_width: u32, cell_height: u32) -> Vec<(u32, u32)> {
         let mut positions = Vec::new();
-        let total_width = cell_width * cols as u32;
-        let total_height = cell_height * rows as u32;
+        let total_width = cell_width.saturating_mul(cols as u32);
+        let total_height = cell_height.saturating_mul(rows as u32);
         let start_x = center_x(total_width);
         let start_y = center_y(total_height);
 
         for row in 0..rows {
             for col in 0..cols {
-                let x = start_x + (col as u32 * cell_width);
-                let y = start_y + (row as u32 * cell_height);
+                let x = start_x.saturating_add((col as u32).saturating_mul(cell_width));
+                let y = start_y.saturating_add((row as u32).saturating_mul(cell_height));
                 positions.push((x, y));
             }
         }
         positions
     }
 
+    /// Offset of the shape at `index` in a stack
+    fn stack_offset(index: usize, size: u32, spacing: u32) -> u32 {
+        (index as u32).saturating_mul(size.saturating_add(spacing))
+    }
+
+    /// Total length of a stack
+    fn stack_length(count: usize, size: u32, spacing: u32) -> u32 {
+        let gaps = count.saturating_sub(1) as u32;
+        size.saturating_mul(count as u32)
+            .saturating_add(spacing.saturating_mul(gaps))
+    }
+
     /// Calculate positions for a horizontal stack of shapes
     pub fn stack_horizontal(
         count: usize,
@@ -743,11 +755,11 @@ pub mod layouts {
         spacing: u32,
         y: u32,
     ) -> Vec<(u32, u32)> {
-        let total_width = (shape_width * count as u32) + (spacing * (count - 1) as u32);
+        let total_width = stack_length(count, shape_width, spacing);
         let start_x = center_x(total_width);
 
         (0..count)
-            .map(|i| (start_x + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (start_x.saturating_add(stack_offset(i, shape_width, spacing)), y))
             .collect()
     }
 
@@ -758,11 +770,11 @@ pub mod layouts {
         spacing: u32,
         x: u32,
     ) -> Vec<(u32, u32)> {
-        let total_height = (shape_height * count as u32) + (spacing * (count - 1) as u32);
+        let total_height = stack_length(count, shape_height, spacing);
         let start_y = center_y(total_height);
 
         (0..count)
-            .map(|i| (x, start_y + (i as u32 * (shape_height + spacing))))
+            .map(|i| (x, start_y.saturating_add(stack_offset(i, shape_height, spacing))))
             .collect()
     }
 
@@ -776,10 +788,11 @@ pub mod layouts {
         }
 
         let usable_width = SLIDE_WIDTH - (2 * MARGIN);
-        let spacing = (usable_width - (shape_width * count as u32)) / (count as u32 - 1);
+        let shapes_width = shape_width.saturating_mul(count as u32);
+        let spacing = usable_width.saturating_sub(shapes_width) / (count as u32 - 1);
 
         (0..count)
-            .map(|i| (MARGIN + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (MARGIN.saturating_add(stack_offset(i, shape_width, spacing)), y))
             .collect()
     }
 }
-- 
2.43.0


From a897cd0a6874c68ffb10665b96bb9757a5e2c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 60/77] fix: a failed write leaves no part of a new file behind

---
 src/api.rs                 |  8 ++++----
 src/bin/pptcli.rs          |  2 +-
 src/cli/commands.rs        |  6 +++---
 src/export/pdf_export.rs   |  2 +-
 src/export/slide_render.rs |  2 +-
 src/opc/mod.rs             |  2 ++
 src/opc/package.rs         |  3 +--
 src/opc/write.rs           | 20 ++++++++++++++++++++
 src/prelude.rs             |  2 +-
 9 files changed, 34 insertions(+), 13 deletions(-)
 create mode 100644 src/opc/write.rs

diff --git a/src/api.rs b/src/api.rs
index 938de8d..8262cf1 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -108,7 +108,7 @@ impl Presentation {
     /// Save the presentation to a file
     pub fn save<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         let data = self.build()?;
-        std::fs::write(path, data)?;
+        crate::opc::write_file(path, data)?;
         Ok(())
     }
 
@@ -121,7 +121,7 @@ impl Presentation {
     /// Export the presentation to HTML
     pub fn save_as_html<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         let html = export_to_html(self)?;
-        std::fs::write(path, html)?;
+        crate::opc::write_file(path, html)?;
         Ok(())
     }
 
@@ -323,7 +323,7 @@ impl Presentation {
     pub fn save_as_markdown<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         use crate::export::md::export_to_markdown;
         let md = export_to_markdown(self)?;
-        std::fs::write(path, md)?;
+        crate::opc::write_file(path, md)?;
         Ok(())
     }
 
@@ -335,7 +335,7 @@ impl Presentation {
     ) -> Result<()> {
         use crate::export::md::export_to_markdown_with_options;
         let md = export_to_markdown_with_options(self, options)?;
-        std::fs::write(path, md)?;
+        crate::opc::write_file(path, md)?;
         Ok(())
     }
 
diff --git a/src/bin/pptcli.rs b/src/bin/pptcli.rs
index 3866125..87a6302 100644
--- a/src/bin/pptcli.rs
+++ b/src/bin/pptcli.rs
@@ -372,7 +372,7 @@ fn execute_web2ppt(
                 println!("💾 Saving to {}...", output);
             }
 
-            match std::fs::write(&output, &pptx_data) {
+            match ppt_rs::opc::write_file(&output, &pptx_data) {
                 Ok(_) => {
                     println!("✓ Created: {} ({} bytes)", output, pptx_data.len());
                 }
diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index 7015c61..6d675d4 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -40,7 +40,7 @@ impl CreateCommand {
         };
 
         // Write to file
-        fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
+        crate::opc::write_file(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
         Ok(())
     }
@@ -74,7 +74,7 @@ impl FromMarkdownCommand {
             .map_err(|e| format!("Failed to generate PPTX: {e}"))?;
 
         // Write to file
-        fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
+        crate::opc::write_file(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
         Ok(())
     }
@@ -125,7 +125,7 @@ impl FromHtmlCommand {
             .map_err(|e| format!("Failed to generate PPTX: {e}"))?;
 
         // Write to file
-        fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
+        crate::opc::write_file(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
         Ok(())
     }
diff --git a/src/export/pdf_export.rs b/src/export/pdf_export.rs
index 5f62739..c0eb9cf 100644
--- a/src/export/pdf_export.rs
+++ b/src/export/pdf_export.rs
@@ -203,7 +203,7 @@ pub fn export_to_pdf<P: AsRef<Path>>(
     options: &PdfExportOptions,
 ) -> Result<Vec<u8>> {
     let bytes = export_to_pdf_bytes(presentation, options)?;
-    std::fs::write(output_path.as_ref(), &bytes)?;
+    crate::opc::write_file(output_path.as_ref(), &bytes)?;
     Ok(bytes)
 }
 
diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 0de114b..487262b 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -440,7 +440,7 @@ pub fn render_to_pdf<P: AsRef<std::path::Path>>(
     output_path: P,
 ) -> Result<()> {
     let bytes = render_to_pdf_bytes(presentation)?;
-    std::fs::write(output_path.as_ref(), &bytes)?;
+    crate::opc::write_file(output_path.as_ref(), &bytes)?;
     Ok(())
 }
 
diff --git a/src/opc/mod.rs b/src/opc/mod.rs
index 6ae37d6..1adae44 100644
--- a/src/opc/mod.rs
+++ b/src/opc/mod.rs
@@ -3,8 +3,10 @@
 pub mod package;
 pub mod compress;
 pub(crate) mod destination;
+pub(crate) mod write;
 
 pub use package::Package;
+pub use write::write_file;
 pub use compress::{
     compress_pptx, compress_pptx_in_memory, analyze_pptx,
     CompressionOptions, CompressionLevel, CompressionResult,
diff --git a/src/opc/package.rs b/src/opc/package.rs
index c8496e2..78f5cb5 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -49,8 +49,7 @@ impl Package {
     /// Save the package to a file
     pub fn save<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         let path = path.as_ref();
-        let file = std::fs::File::create(path)?;
-        self.save_writer(file)
+        super::write::or_remove(path, || self.save_writer(std::fs::File::create(path)?))
     }
 
     /// Save the package to a writer
diff --git a/src/opc/write.rs b/src/opc/write.rs
new file mode 100644
index 0000000..c82a12c
--- /dev/null
+++ b/src/opc/write.rs
@@ -0,0 +1,20 @@
+//! Writing output files
+
+use std::io;
+use std::path::Path;
+
+/// Write a file. When that fails, no part of a file that was not there before is left.
+pub fn write_file(path: impl AsRef<Path>, data: impl AsRef<[u8]>) -> io::Result<()> {
+    let path = path.as_ref();
+    or_remove(path, || std::fs::write(path, data))
+}
+
+/// Run what creates a file, removing a new one if it fails
+pub(crate) fn or_remove<E>(path: &Path, write: impl FnOnce() -> Result<(), E>) -> Result<(), E> {
+    let existed = path.symlink_metadata().is_ok();
+    let result = write();
+    if result.is_err() && !existed {
+        let _ = std::fs::remove_file(path);
+    }
+    result
+}
diff --git a/src/prelude.rs b/src/prelude.rs
index 2a9a728..3419d6c 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -220,7 +220,7 @@ impl QuickPptx {
     /// Build and save to a file
     pub fn save(self, path: &str) -> crate::exc::Result<()> {
         let data = self.build()?;
-        std::fs::write(path, data)?;
+        crate::opc::write_file(path, data)?;
         Ok(())
     }
 }
-- 
2.43.0


From fe08d4a19164a0127fbd9d19c56f49620d5896af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 61/77] fix: info shows the title and the number of slides of a
 presentation

---
 src/cli/commands.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index 6d675d4..0e287c2 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -1,6 +1,7 @@
 //! CLI commands implementation
 
 use crate::generator;
+use crate::oxml::presentation::PresentationReader;
 use std::fs;
 use std::path::PathBuf;
 
@@ -151,8 +152,15 @@ impl InfoCommand {
         let is_file = metadata.is_file();
         println!("Is file:  {is_file}");
 
-        // Try to read and parse as XML
-        if let Ok(content) = fs::read_to_string(file) {
+        if let Ok(reader) = PresentationReader::open(file) {
+            println!("\nPresentation Information");
+            println!("========================");
+            if let Some(title) = &reader.info().title {
+                println!("Title: {title}");
+            }
+            println!("Slides: {}", reader.slide_count());
+        } else if let Ok(content) = fs::read_to_string(file) {
+            // Try to read and parse as XML
             if content.starts_with("<?xml") {
                 println!("\nPresentation Information");
                 println!("========================");
-- 
2.43.0


From 748883c181c4222e2aee029539c3f39bcfb4c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 62/77] fix: validate --json says why it fails

---
 src/bin/pptcli.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bin/pptcli.rs b/src/bin/pptcli.rs
index 87a6302..453f9f7 100644
--- a/src/bin/pptcli.rs
+++ b/src/bin/pptcli.rs
@@ -79,9 +79,7 @@ fn main() {
                 }
             }
             Err(e) => {
-                if !json {
-                    eprintln!("✗ Error: {e}");
-                }
+                eprintln!("✗ Error: {e}");
                 std::process::exit(1);
             }
         },
-- 
2.43.0


From aeb5c7f2c414efa7a6cb5dddd0cf7c7f1e82e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:00 +0000
Subject: [PATCH 63/77] fix: an archive without a presentation is not opened as
 an empty one

---
 src/oxml/presentation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index ce933af..81edeec 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -161,6 +161,10 @@ impl PresentationReader {
             .into_iter()
             .map(|(_, path)| path)
             .collect();
+        let presentation = presentation_part(&self.package);
+        if self.slide_paths.is_empty() && !self.package.has_part(&presentation) {
+            return Err(PptxError::NotFound(presentation));
+        }
         self.info.slide_count = self.slide_paths.len();
         Ok(())
     }
-- 
2.43.0


From 4dc236de3f3029daf0277ce6622e1c0a1db70951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:32 +0000
Subject: [PATCH 64/77] fix: inline HTML in Markdown no longer panics or shows
 what a comment says

---
 src/cli/markdown/parser.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 98cca70..56e58ec 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -206,32 +206,12 @@ impl MarkdownParser {
 
             // Handle other inline elements
             Event::InlineHtml(html) => {
-                // Check for highlight, subscript, superscript in HTML
-                let html_str = html.to_string();
-                if html_str.contains("<mark>") || html_str.contains("<ins>") {
-                    // Highlight syntax: ==text== or <ins>text</ins>
-                    if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
-                            self.push_text(&format!("=={}==", text));
-                        }
-                    }
-                } else if html_str.contains("<sub>") {
-                    // Subscript
-                    if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
-                            self.push_text(&format!("~{}~", text));
-                        }
-                    }
-                } else if html_str.contains("<sup>") {
-                    // Superscript
-                    if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
-                            self.push_text(&format!("^{}^", text));
-                        }
-                    }
+                // Highlight, subscript and superscript tags become their marks
+                match html.as_ref() {
+                    "<mark>" | "</mark>" | "<ins>" | "</ins>" => self.push_text("=="),
+                    "<sub>" | "</sub>" => self.push_text("~"),
+                    "<sup>" | "</sup>" => self.push_text("^"),
+                    _ => {}
                 }
             }
 
-- 
2.43.0


From a35cb78ac598fd5ef5c93e275ccda72fc2503323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:07 +0000
Subject: [PATCH 65/77] fix: fonts of a theme with the office name and colours
 are written

---
 src/generator/presentation_theme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index b635c56..3b0780a 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -235,7 +235,7 @@ impl PresentationTheme {
 
     /// Generate `ppt/theme/theme1.xml` content using the full Office theme template.
     pub fn to_theme_xml(&self) -> String {
-        if self.name == "Office Theme" && self.colors == ThemeColorScheme::office() {
+        if *self == Self::office() {
             return office_theme_xml().to_string();
         }
 
-- 
2.43.0


From 415d2ef598fcfdd049609034d0d4891d31e41496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:45 +0000
Subject: [PATCH 66/77] fix: a slide show plays narration and ignores timings
 as asked

---
 .../slide_content/slide_show_settings.rs        | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/generator/slide_content/slide_show_settings.rs b/src/generator/slide_content/slide_show_settings.rs
index 3fff7db..2c80a7e 100644
--- a/src/generator/slide_content/slide_show_settings.rs
+++ b/src/generator/slide_content/slide_show_settings.rs
@@ -132,23 +132,14 @@ impl SlideShowSettings {
         if self.loop_continuously {
             attrs.push(r#"loop="1""#.to_string());
         }
-        if self.show_without_narration {
-            attrs.push(r#"showNarration="0""#.to_string());
-        }
+        // Left out, narration would not play and timings would be used
+        attrs.push(format!(r#"showNarration="{}""#, u8::from(!self.show_without_narration)));
         if self.show_without_animation {
             attrs.push(r#"showAnimation="0""#.to_string());
         }
-        if self.use_timings {
-            attrs.push(r#"useTimings="1""#.to_string());
-        }
-
-        let attrs_str = if attrs.is_empty() {
-            String::new()
-        } else {
-            format!(" {}", attrs.join(" "))
-        };
+        attrs.push(format!(r#"useTimings="{}""#, u8::from(self.use_timings)));
 
-        let mut xml = format!(r#"<p:showPr{}>"#, attrs_str);
+        let mut xml = format!(r#"<p:showPr {}>"#, attrs.join(" "));
 
         // Show type
         xml.push_str(self.show_type.to_xml_element());
-- 
2.43.0


From b18955e165d8c594d65a04082af497febf450ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 67/77] fix: the subject of a mail link is escaped for the
 address

---
 src/generator/hyperlinks.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 46d667b..0f9c615 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -72,7 +72,14 @@ impl HyperlinkAction {
             HyperlinkAction::Email { address, subject } => {
                 let mut mailto = format!("mailto:{}", address);
                 if let Some(subj) = subject {
-                    mailto.push_str(&format!("?subject={}", subj));
+                    mailto.push_str("?subject=");
+                    for byte in subj.bytes() {
+                        if byte.is_ascii_alphanumeric() || b"-._~".contains(&byte) {
+                            mailto.push(byte as char);
+                        } else {
+                            mailto.push_str(&format!("%{byte:02X}"));
+                        }
+                    }
                 }
                 mailto
             }
-- 
2.43.0


From 340beb147f00de298db6e88a9d22998a1d07a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:40 +0000
Subject: [PATCH 68/77] fix: building a picture with one effect keeps the
 effects and the crop set before

---
 src/generator/images.rs | 104 ++++------------------------------------
 1 file changed, 8 insertions(+), 96 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 61cad26..1cd9b71 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -625,130 +625,42 @@ impl ImageBuilder {
     
     /// Build with crop
     pub fn build_with_crop(self, left: f64, top: f64, right: f64, bottom: f64) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: Some(Crop::new(left, top, right, bottom)),
-            effects: Vec::new(),
-            alt_text: None,
-        }
+        self.crop(left, top, right, bottom).build()
     }
     
     /// Build with shadow effect
     pub fn build_with_shadow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Shadow],
-            alt_text: None,
-        }
+        self.shadow().build()
     }
     
     /// Build with reflection effect
     pub fn build_with_reflection(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Reflection],
-            alt_text: None,
-        }
+        self.reflection().build()
     }
     
     /// Build with both shadow and reflection effects
     pub fn build_with_effects(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Shadow, ImageEffect::Reflection],
-            alt_text: None,
-        }
+        self.shadow().reflection().build()
     }
     
     /// Build with glow effect
     pub fn build_with_glow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Glow],
-            alt_text: None,
-        }
+        self.glow().build()
     }
     
     /// Build with soft edges effect
     pub fn build_with_soft_edges(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::SoftEdges],
-            alt_text: None,
-        }
+        self.soft_edges().build()
     }
     
     /// Build with inner shadow effect
     pub fn build_with_inner_shadow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::InnerShadow],
-            alt_text: None,
-        }
+        self.inner_shadow().build()
     }
     
     /// Build with blur effect
     pub fn build_with_blur(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Blur],
-            alt_text: None,
-        }
+        self.blur().build()
     }
 }
 
-- 
2.43.0


From eeb5e0eb0295e3eaf2356b36e47fea0da2245486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:40 +0000
Subject: [PATCH 69/77] fix: a text run writes strikethrough, sub- and
 superscript and highlight

---
 src/generator/text/run.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index f0a320e..6da4d15 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -68,6 +68,14 @@ impl Run {
         let bold = if self.format.bold { "1" } else { "0" };
         let italic = if self.format.italic { "1" } else { "0" };
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
+        let strike = if self.format.strikethrough { " strike=\"sngStrike\"" } else { "" };
+        let baseline = if self.format.subscript {
+            " baseline=\"-25000\""
+        } else if self.format.superscript {
+            " baseline=\"30000\""
+        } else {
+            ""
+        };
         
         let color_xml = self.format.color.as_ref()
             .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, c))
@@ -78,8 +86,9 @@ impl Run {
             .unwrap_or_default();
 
         format!(
-            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{} dirty="0">{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
-            size, bold, italic, underline, color_xml, font_xml, escape_xml(&self.text)
+            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{}{}{} dirty="0">{}{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
+            size, bold, italic, underline, strike, baseline,
+            color_xml, self.format.to_highlight_xml(), font_xml, escape_xml(&self.text)
         )
     }
 }
-- 
2.43.0


From c2218c51213f7d4e0744c14288f0024f5788f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:40 +0000
Subject: [PATCH 70/77] fix: paragraph spacing beyond the range saturates

---
 src/generator/text/paragraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/text/paragraph.rs b/src/generator/text/paragraph.rs
index 6e9c2f7..d990b89 100644
--- a/src/generator/text/paragraph.rs
+++ b/src/generator/text/paragraph.rs
@@ -69,13 +69,13 @@ impl Paragraph {
 
     /// Set spacing before (in points)
     pub fn spacing_before(mut self, points: u32) -> Self {
-        self.spacing_before = Some(points * 100);
+        self.spacing_before = Some(points.saturating_mul(100));
         self
     }
 
     /// Set spacing after (in points)
     pub fn spacing_after(mut self, points: u32) -> Self {
-        self.spacing_after = Some(points * 100);
+        self.spacing_after = Some(points.saturating_mul(100));
         self
     }
 
-- 
2.43.0


From 901296cdd9a926e85a1a776448e5c8a55feef53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:40 +0000
Subject: [PATCH 71/77] fix: a centred cell of a table part says so

---
 src/parts/table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index 5b2a26b..ed7f506 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -419,11 +419,7 @@ impl TableCellPart {
             .unwrap_or_default();
 
         // Paragraph alignment
-        let p_pr = if self.h_align == HorizontalAlign::Center {
-            String::new()
-        } else {
-            format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str())
-        };
+        let p_pr = format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str());
 
         // Cell properties
         let mut tcpr_attrs = format!(r#" anchor="{}""#, self.v_align.as_str());
-- 
2.43.0


From de436ea2644f9a715b3e27737998f6c955e6ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:40 +0000
Subject: [PATCH 72/77] fix: table parts write absent and double borders in
 valid markup

---
 src/parts/table.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index ed7f506..6dacc38 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -102,17 +102,23 @@ impl CellBorder {
 
     pub fn to_xml(&self, tag: &str) -> String {
         if self.style == BorderStyle::None {
-            return format!("<a:{}/>\n", tag);
+            return format!(r#"<a:{} w="0"><a:noFill/></a:{}>"#, tag, tag);
         }
+        // A double line is a compound of two solid ones, not a dash pattern
+        let (compound, dash) = match self.style {
+            BorderStyle::Double => ("dbl", BorderStyle::Solid.as_str()),
+            style => ("sng", style.as_str()),
+        };
         format!(
-            r#"<a:{} w="{}" cap="flat" cmpd="sng" algn="ctr">
+            r#"<a:{} w="{}" cap="flat" cmpd="{}" algn="ctr">
               <a:solidFill><a:srgbClr val="{}"/></a:solidFill>
               <a:prstDash val="{}"/>
             </a:{}>"#,
             tag,
             self.width,
+            compound,
             self.color.trim_start_matches('#'),
-            self.style.as_str(),
+            dash,
             tag
         )
     }
-- 
2.43.0


From b9062dfdf05e43a819e209f9a47957a1469fa969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:00 +0000
Subject: [PATCH 73/77] fix: table parts mark the cells below a row span as
 merged vertically

---
 src/parts/table.rs | 56 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index 6dacc38..c7ef446 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -360,11 +360,19 @@ impl TableCellPart {
         self
     }
 
+    /// XML of a cell covered by the span of another one
+    fn placeholder_xml(merge_attrs: &str) -> String {
+        format!(
+            r#"<a:tc{}><a:txBody><a:bodyPr/><a:lstStyle/><a:p><a:endParaRPr/></a:p></a:txBody><a:tcPr/></a:tc>"#,
+            merge_attrs
+        )
+    }
+
     /// Generate XML for this cell
     pub fn to_xml(&self) -> String {
         // Handle merged cells (placeholders)
         if self.is_merged {
-            return r#"<a:tc hMerge="1"><a:txBody><a:bodyPr/><a:lstStyle/><a:p><a:endParaRPr/></a:p></a:txBody><a:tcPr/></a:tc>"#.to_string();
+            return Self::placeholder_xml(r#" hMerge="1""#);
         }
 
         let mut attrs = String::new();
@@ -501,6 +509,12 @@ impl TableRowPart {
 
     /// Generate XML for this row
     pub fn to_xml(&self) -> String {
+        self.to_xml_below(&[])
+    }
+
+    /// Generate XML, given the merge attributes of the columns covered by
+    /// spans that start in a row above
+    fn to_xml_below(&self, covered: &[Option<&'static str>]) -> String {
         let height_attr = self
             .height
             .map(|h| format!(r#" h="{}""#, h))
@@ -509,7 +523,11 @@ impl TableRowPart {
         let cells_xml: String = self
             .cells
             .iter()
-            .map(|c| c.to_xml())
+            .enumerate()
+            .map(|(col, c)| match covered.get(col) {
+                Some(Some(merge_attrs)) if c.is_merged => TableCellPart::placeholder_xml(merge_attrs),
+                _ => c.to_xml(),
+            })
             .collect::<Vec<_>>()
             .join("\n        ");
 
@@ -593,12 +611,34 @@ impl TablePart {
             .collect::<Vec<_>>()
             .join("\n        ");
 
-        let rows_xml: String = self
-            .rows
-            .iter()
-            .map(|r| r.to_xml())
-            .collect::<Vec<_>>()
-            .join("\n      ");
+        // Rows still covered in each column, and whether it is the first column of the span
+        let mut open: Vec<(u32, bool)> = Vec::new();
+        let mut rows = Vec::with_capacity(self.rows.len());
+        for row in &self.rows {
+            let covered: Vec<Option<&'static str>> = open
+                .iter()
+                .map(|&(left, first)| match (left, first) {
+                    (0, _) => None,
+                    (_, true) => Some(r#" vMerge="1""#),
+                    (_, false) => Some(r#" hMerge="1" vMerge="1""#),
+                })
+                .collect();
+            rows.push(row.to_xml_below(&covered));
+
+            for (left, _) in &mut open {
+                *left = left.saturating_sub(1);
+            }
+            open.resize(open.len().max(row.cells.len()), (0, true));
+            for (col, cell) in row.cells.iter().enumerate() {
+                if !cell.is_merged && cell.row_span > 1 {
+                    let end = open.len().min(col.saturating_add(cell.col_span.max(1) as usize));
+                    for (i, slot) in open[col..end].iter_mut().enumerate() {
+                        *slot = (cell.row_span - 1, i == 0);
+                    }
+                }
+            }
+        }
+        let rows_xml = rows.join("\n      ");
 
         format!(
             r#"<p:graphicFrame>
-- 
2.43.0


From 6b804ca37e2f9f4ebcc495534d9b5c133a483e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:01 +0000
Subject: [PATCH 74/77] fix: a slide added to a presentation part that was read
 gets an unused id

---
 src/parts/presentation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parts/presentation.rs b/src/parts/presentation.rs
index e571887..c8ca06a 100644
--- a/src/parts/presentation.rs
+++ b/src/parts/presentation.rs
@@ -50,7 +50,12 @@ impl PresentationPart {
 
     /// Add a slide reference
     pub fn add_slide(&mut self, r_id: &str) -> u32 {
-        let id = 256 + self.slide_refs.len() as u32 + 1;
+        // Slide ids lie from 256 to 2^31 - 1 and must be unique, also beside those read from a file
+        let first = 257 + self.slide_refs.len() as u32;
+        let id = (first..0x8000_0000)
+            .chain(256..first)
+            .find(|id| self.slide_refs.iter().all(|slide| slide.id != *id))
+            .unwrap_or(first);
         self.slide_refs.push(SlideRef {
             id,
             r_id: r_id.to_string(),
-- 
2.43.0


From 0dd92731a556490842b0c03dd9da047afe989ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:01 +0000
Subject: [PATCH 75/77] fix: the name of a layout part is escaped

---
 src/parts/slide_layout.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 34054e3..827a129 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -3,6 +3,7 @@
 //! Represents a slide layout template (ppt/slideLayouts/slideLayoutN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Slide layout types
@@ -140,7 +141,7 @@ impl SlideLayoutPart {
   </p:clrMapOvr>
 </p:sldLayout>"#,
             self.layout_type.type_value(),
-            self.name
+            escape_xml(&self.name)
         )
     }
 }
-- 
2.43.0


From e968413fe041faafe713a8c8ce091b73a9e8d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:01 +0000
Subject: [PATCH 76/77] fix: the colour slots of a theme part carry no
 attribute of their own

---
 src/parts/theme.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 3f4d030..3f616f4 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -127,8 +127,8 @@ impl ThemePart {
             .iter()
             .map(|c| {
                 format!(
-                    r#"<a:{} val="{}"><a:srgbClr val="{}"/></a:{}>"#,
-                    c.name, c.name, c.value, c.name
+                    r#"<a:{}><a:srgbClr val="{}"/></a:{}>"#,
+                    c.name, c.value, c.name
                 )
             })
             .collect::<Vec<_>>()
-- 
2.43.0


From dd2a178d1d99e3e627df968c7fbd8e9db9d38dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:01 +0000
Subject: [PATCH 77/77] fix: notes and media parts name their own kind and
 content type

---
 src/parts/media.rs       | 4 ++--
 src/parts/notes_slide.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parts/media.rs b/src/parts/media.rs
index c0dfb1e..506bf75 100644
--- a/src/parts/media.rs
+++ b/src/parts/media.rs
@@ -175,11 +175,11 @@ impl Part for MediaPart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Image // Media uses similar handling to images
+        PartType::Media
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Image(self.format.extension().to_string())
+        ContentType::Media(self.format.extension().to_string())
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
diff --git a/src/parts/notes_slide.rs b/src/parts/notes_slide.rs
index b5e39fb..81f03bb 100644
--- a/src/parts/notes_slide.rs
+++ b/src/parts/notes_slide.rs
@@ -131,11 +131,11 @@ impl Part for NotesSlidePart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Slide // Notes are associated with slides
+        PartType::NotesSlide
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Xml // Notes have their own content type
+        ContentType::NotesSlide
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
-- 
2.43.0


From 401547a1aa6052fdf044c9faee9176dcc37a86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:21 +0000
Subject: [PATCH 01/38] fix: write the end point of curved segments in MIF
 output

The sampling loop along a curve stops before its end, and nothing wrote the
end point afterwards, so every curved segment lost its end.
---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..5e5ab61 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -179,6 +179,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         for (temp = dt; fabs(temp - (float) 1.0) > dt; temp += dt) {
           print_coord(ps_file, bezpnt(temp, START_POINT(s).x, CONTROL1(s).x, CONTROL2(s).x, END_POINT(s).x), bezpnt(temp, START_POINT(s).y, CONTROL1(s).y, CONTROL2(s).y, END_POINT(s).y));
         }
+        print_coord(ps_file, END_POINT(s).x, END_POINT(s).y);
       }
     }
     fprintf(ps_file, "  <Smoothed %s>\n", smooth ? "Yes" : "No");
-- 
2.43.0


From a22f9995254ffbed0e84b26c405a2e698e12874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:24 +0000
Subject: [PATCH 02/38] fix: flip the outline's start point in DR2D bounding
 boxes

The bounding box of an outline was begun with the unflipped vertical
coordinate of its first point, while all other points are flipped.
---
 src/output-dr2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..c54daf2 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -186,9 +186,9 @@ static struct Chunk *BuildBBOX(spline_list_type list, int height)
   s = SPLINE_LIST_ELT(list, 0);
 
   x1 = START_POINT(s).x;
-  y1 = START_POINT(s).y;
+  y1 = height - START_POINT(s).y;
   x2 = START_POINT(s).x;
-  y2 = START_POINT(s).y;
+  y2 = height - START_POINT(s).y;
 
   this_spline_length = SPLINE_LIST_LENGTH(list);
   for (this_spline = 0; this_spline < this_spline_length; this_spline++) {
-- 
2.43.0


From 3dcb4e103fe33ef392a4105b35279fdb58c87f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:36 +0000
Subject: [PATCH 03/38] fix: keep the last colour across outlines in DXF output

The last colour was reset to black for every outline, so a black outline
kept the layer of the outline before it.
---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..e74c70b 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -581,11 +581,11 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
   xypnt pnt, pnt_old = { 0, 0 };
   char fin, new_layer = 0, layerstr[10];
   int i, first_seg = 1, idx;
+  at_color last_color = { 0, 0, 0 };
 
   strcpy(layerstr, "C1");
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
-    at_color last_color = { 0, 0, 0 };
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
-- 
2.43.0


From 2146a957d95b47975a1fdc796f0d73ce45e841a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:36 +0000
Subject: [PATCH 04/38] fix: give every outline its own colour in MIF output

All outlines were drawn in the colour of the last one.
---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 5e5ab61..12849ff 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -157,6 +157,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
+    curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
 
     for (i = 0; i < n_ctbl; i++)
       if (at_color_equal(&curr_color, &col_tbl[i].c))
-- 
2.43.0


From ac8d6c14dfa7362cbfedd8e9edde0bb55d7c0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:04 +0000
Subject: [PATCH 05/38] fix: stroke open outlines in FIG output

---
 src/output-fig.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..8241115 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -235,7 +235,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
         is_spline = 1;
       }
     }
-    if (shape.centerline) {
+    if (shape.centerline || list.open) {
       fig_fill = -1;
       fig_width = 1;
       fig_spline_close = 4;
@@ -304,7 +304,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
           fprintf(file, "\t%d %d %d %d\n", pointx[0], pointy[0], pointx[1], pointy[1]);
         } else {
           if ((pointx[0] != pointx[pointcount - 1]) || (pointy[0] != pointy[pointcount - 1])) {
-            if (shape.centerline) {
+            if (shape.centerline || list.open) {
               fig_subt = 1;
             } else {
               /* Need to have last point same as first for polygon */
-- 
2.43.0


From 4776488c18b867b0ad755e48baa271b71d106748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:04 +0000
Subject: [PATCH 06/38] fix: stroke open outlines in CGM output

---
 src/output-cgm.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..0661b86 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -137,6 +137,7 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
   unsigned this_list;
   char *des;
   const char *version_string = at_version(true);
+  bool stroke = false;
 
   output_beginmetafilename(cgm_file, name);
 
@@ -173,13 +174,15 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
 
     if (this_list > 0) {
-      if (shape.centerline)
+      if (stroke)
         write16(cgm_file, 0x0200);  /* end a compound line */
       else
         write16(cgm_file, 0x0120);  /* end a figure */
     }
 
-    if (shape.centerline)
+    stroke = shape.centerline || list.open;
+
+    if (stroke)
       write16(cgm_file, 0x5083);  /* line */
     else
       write16(cgm_file, 0x52E3); /* fill */ ;
@@ -196,7 +199,7 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
     }
     write8(cgm_file, 0);
 
-    if (shape.centerline) {
+    if (stroke) {
       write16(cgm_file, 0x53C2);  /* edge visibility on */
       write16(cgm_file, 0x0001);
     } else {
@@ -204,7 +207,7 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
       write16(cgm_file, 0x0001);
     }
 
-    if (shape.centerline)
+    if (stroke)
       write16(cgm_file, 0x01E0);  /* begin a compound line */
     else
       write16(cgm_file, 0x0100);  /* begin a figure */
@@ -234,7 +237,7 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
   }
 
   if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
-    if (shape.centerline)
+    if (stroke)
       write16(cgm_file, 0x0200);  /* end a compound line */
     else
       write16(cgm_file, 0x0120);  /* end a figure */
-- 
2.43.0


From 287010823b1bf12bfa06b105fb0b1059aa1e9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:04 +0000
Subject: [PATCH 07/38] fix: select a pen for open outlines in EMF output

---
 src/output-emf.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..e91cf15 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -760,6 +760,7 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   int nrecords = 0;
   int filesize = 0;
   uint32_t last_color = 0xFFFFFFFF, curr_color;
+  bool stroke, last_stroke = false;
   spline_list_type curr_list;
   spline_type curr_spline;
   int last_degree;
@@ -769,23 +770,24 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
-    if (this_list == 0 || curr_color != last_color) {
+    stroke = shape.centerline || curr_list.open;
+    if (this_list == 0 || curr_color != last_color || stroke != last_stroke) {
       ncolorchng++;
       if (!SearchColor(color_list, curr_color)) {
         ncolors++;
         AddColor(&color_list, curr_color);
       }
-      if (shape.centerline) {
+      if (stroke) {
         nrecords += 2;
         filesize += (WriteCreateSolidPen(NULL, 0, 0) + WriteSelectObject(NULL, 0));
-        if (this_list != 0) {
-          nrecords++;
-          filesize += WriteDeleteObject(NULL, 0);
-        }
       } else {
         nrecords++;
         filesize += WriteSelectObject(NULL, 0);
       }
+      if (last_stroke) {
+        nrecords++;
+        filesize += WriteDeleteObject(NULL, 0);
+      }
 
       nrecords += 2;
       filesize += (WriteCreateSolidBrush(NULL, 0, 0) + WriteSelectObject(NULL, 0));
@@ -795,6 +797,7 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
       }
 
       last_color = curr_color;
+      last_stroke = stroke;
 
     }
     // emf stats :: BeginPath
@@ -843,7 +846,7 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (last_stroke) {
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
@@ -874,6 +877,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   unsigned int this_list, this_spline;
   int color_index, last_index;
   uint32_t last_color = 0xFFFFFFFF, curr_color;
+  bool stroke, last_stroke = false;
   spline_list_type curr_list;
   spline_type curr_spline;
   int last_degree;
@@ -893,16 +897,17 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
 
     // output pen & brush selection
     curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
-    if (this_list == 0 || curr_color != last_color) {
+    stroke = shape.centerline || curr_list.open;
+    if (this_list == 0 || curr_color != last_color || stroke != last_stroke) {
 
       color_index = ColorLookUp(curr_color, color_table, stats->ncolors);
-      if (shape.centerline) {
+      if (stroke) {
         WriteCreateSolidPen(fdes, MK_PEN(color_index), color_table[color_index]);
         WriteSelectObject(fdes, MK_PEN(color_index));
-        if (this_list != 0)
-          WriteDeleteObject(fdes, MK_PEN(last_index));
       } else
         WriteSelectObject(fdes, STOCK_NULL_PEN);
+      if (last_stroke)
+        WriteDeleteObject(fdes, MK_PEN(last_index));
 
       WriteCreateSolidBrush(fdes, MK_BRUSH(color_index), color_table[color_index]);
       WriteSelectObject(fdes, MK_BRUSH(color_index));
@@ -910,6 +915,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
         WriteDeleteObject(fdes, MK_BRUSH(last_index));
 
       last_color = curr_color;
+      last_stroke = stroke;
       last_index = color_index;
     }
     //output a BeginPath for current shape
@@ -952,7 +958,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
     //output EndPath
     WriteEndPath(fdes);
 
-    if (shape.centerline || curr_list.open)
+    if (stroke)
       //output StrokePath
       WriteStrokePath(fdes);
     else
@@ -962,7 +968,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
+  if (last_stroke)
     WriteDeleteObject(fdes, MK_PEN(last_index));
   WriteDeleteObject(fdes, MK_BRUSH(last_index));
 
-- 
2.43.0


From fb2d710a307bb389a7cb5abd86c3abc465a65051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:04 +0000
Subject: [PATCH 08/38] fix: keep earlier outlines of the same colour in P2E
 output

newpath drops the current path, so of several outlines in one colour only
the last one was painted.
---
 src/output-p2e.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-p2e.c b/src/output-p2e.c
index 9ce7875..0ee7597 100644
--- a/src/output-p2e.c
+++ b/src/output-p2e.c
@@ -170,10 +170,10 @@ static void out_splines(FILE * ps_file, spline_list_array_type shape)
       y -= k;
       OUT("%.3f %.3f %.3f %.3f %s\n", (double)c / 255.0, (double)m / 255.0, (double)y / 255.0, (double)k / 255.0, "setcmykcolor");
 #endif
+      OUT_LINE("newpath");
       last_color = list.color;
     }
 
-    OUT_LINE("newpath");
     OUT_COMMAND2(START_POINT(first).x, START_POINT(first).y, "moveto");
 
     for (this_spline = 0; this_spline < SPLINE_LIST_LENGTH(list); this_spline++) {
-- 
2.43.0


From a82a401713c9c3d0a82b0ee31eb0c55aeac06081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:48 +0000
Subject: [PATCH 09/38] fix: report read errors in GF fonts to the caller
 instead of ending the process

---
 src/input-gf.c | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 41c018f..972b812 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -81,6 +81,7 @@ typedef struct _gf_char_t {
 typedef struct _gf_font_t {
   char *input_filename;
   FILE *input_file;
+  int error;                    /* Set once reading or seeking has failed. */
   double design_size;
   unsigned long checksum;
   double h_pixels_per_point, v_pixels_per_point;
@@ -114,8 +115,10 @@ static unsigned char get_byte(gf_font_t * font)
   unsigned char b;
 
   if (fread(&b, 1, 1, font->input_file) != 1) {
-    fprintf(stderr, "%s: read error\n", font->input_filename);
-    exit(-1);
+    if (!font->error)
+      fprintf(stderr, "%s: read error\n", font->input_filename);
+    font->error = 1;
+    return 0;
   }
   return b;
 }
@@ -157,8 +160,9 @@ static unsigned long get_four(gf_font_t * font)
 static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
-    fprintf(stderr, "%s: seek error\n", font->input_filename);
-    exit(-1);
+    if (!font->error)
+      fprintf(stderr, "%s: seek error\n", font->input_filename);
+    font->error = 1;
   }
 }
 
@@ -169,7 +173,7 @@ static unsigned char get_previous_byte(gf_font_t * font)
   move_relative(font, -1);
   b = get_byte(font);
   move_relative(font, -1);
-  return b;
+  return font->error ? 0 : b;
 }
 
 static unsigned long get_previous_four(gf_font_t * font)
@@ -228,7 +232,7 @@ static void skip_specials(gf_font_t * font)
  *
  * Weird, huh?
  */
-static void get_character_bitmap(gf_char_t * sym)
+static int get_character_bitmap(gf_char_t * sym)
 {
   unsigned char c;
 
@@ -260,9 +264,9 @@ static void get_character_bitmap(gf_char_t * sym)
       continue;                 /* do nothing */
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      return 0;
     }
-    return;
+    return 1;
   }
 
   sym->height = height;
@@ -270,11 +274,13 @@ static void get_character_bitmap(gf_char_t * sym)
   sym->bitmap = calloc(width, height);
   if (!sym->bitmap) {
     fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-    exit(-1);
+    return 0;
   }
 
   for (;;) {
     c = get_byte(sym->font);
+    if (sym->font->error)
+      return 0;
     if (c == EOC)
       break;
 
@@ -302,7 +308,7 @@ static void get_character_bitmap(gf_char_t * sym)
           break;
         default:
           fprintf(stderr, "%s: invalid painting command %u\n", sym->font->input_filename, c);
-          exit(-1);
+          return 0;
         }
       }
 
@@ -344,7 +350,7 @@ static void get_character_bitmap(gf_char_t * sym)
         break;
       default:
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
-        exit(-1);
+        return 0;
       }
       cur_y -= rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
@@ -365,9 +371,10 @@ static void get_character_bitmap(gf_char_t * sym)
 
     } else {
       fprintf(stderr, "%s: expected paint or skip or new_row, found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      return 0;
     }
   }
+  return 1;
 }
 
 /*
@@ -375,7 +382,7 @@ static void get_character_bitmap(gf_char_t * sym)
  * smallest possible, i.e., that the character bitmap does not have
  * blank rows or columns at an edge.  We want to remove such blanks.
  */
-static void deblank(gf_char_t * sym)
+static int deblank(gf_char_t * sym)
 {
   unsigned all_white, white_on_left = 0, white_on_right = 0, white_on_top = 0, white_on_bottom = 0;
   int c, r;                     /* int in case GF_CHAR is zero pixels wide. */
@@ -448,7 +455,7 @@ static void deblank(gf_char_t * sym)
       condensed.bitmap = calloc(condensed.width, condensed.height);
       if (!condensed.bitmap) {
         fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-        exit(-1);
+        return 0;
       }
       for (r = 0; r < condensed.height; r++)
         for (c = 0; c < condensed.width; c++) {
@@ -462,6 +469,7 @@ static void deblank(gf_char_t * sym)
     free(sym->bitmap);
     sym->bitmap = condensed.bitmap;
   }
+  return 1;
 }
 
 static int gf_open(gf_font_t * font, char *filename)
@@ -470,6 +478,7 @@ static int gf_open(gf_font_t * font, char *filename)
   unsigned long post_ptr;
 
   font->input_filename = filename;
+  font->error = 0;
   font->input_file = fopen(filename, "r");
   if (!font->input_file) {
     perror(filename);
@@ -551,7 +560,7 @@ static int gf_open(gf_font_t * font, char *filename)
     font->char_loc[c].tfm_width = get_four(font);
     font->char_loc[c].char_pointer = get_four(font);
   }
-  return 1;
+  return !font->error;
 }
 
 /*
@@ -630,9 +639,11 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
     fprintf(stderr, "%s: warning: character code mismatch, %d != %d\n", font->input_filename, sym->charcode, charcode);
   }
 
-  get_character_bitmap(sym);
-
-  deblank(sym);
+  sym->bitmap = NULL;
+  if (font->error || !get_character_bitmap(sym) || !deblank(sym)) {
+    free(sym->bitmap);
+    return 0;
+  }
   return 1;
 }
 
-- 
2.43.0


From 4ef27819e119ca13e88bb5ff2a17d547c6a9cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:48 +0000
Subject: [PATCH 10/38] fix: report centreline shapes as an error in POV output
 instead of ending the process

---
 src/output-pov.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/output-pov.c b/src/output-pov.c
index daa3ddf..a673c36 100644
--- a/src/output-pov.c
+++ b/src/output-pov.c
@@ -25,7 +25,7 @@
 #include "spline.h"
 #include "color.h"
 #include "output-pov.h"
-#include "logreport.h"
+#include "exception.h"
 #include "autotrace.h"
 #include <string.h>
 #include <math.h>
@@ -107,8 +107,11 @@ static void out_splines(FILE * pov_file, spline_list_array_type shape)
 
 int output_pov_writer(FILE *pov_file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data) {
-  if (shape.centerline == true)
-    FATAL("Povray output currently not supported for centerline method");
+  if (shape.centerline == true) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    at_exception_fatal(&exp, "Povray output currently not supported for centerline method");
+    return -1;
+  }
 
   out_splines(pov_file, shape);
 
-- 
2.43.0


From 3589ebfd6f25a3add654e0b5445fa4deb62f5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:16 +0000
Subject: [PATCH 11/38] fix: return to the caller when libpng reports an error

---
 src/input-png.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index 6671bb6..253ed80 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -95,8 +95,16 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   int pixel_size;
   int result = 1;
 
-  if (!init_structs(&png, &info, &end_info, exp))
+  if (!init_structs(&png, &info, &end_info, exp)) {
+    at_exception_fatal(exp, "Cannot initialize the PNG reader");
     return 0;
+  }
+
+  /* libpng comes back here after handle_error. */
+  if (setjmp(png_jmpbuf(png))) {
+    result = 0;
+    goto cleanup;
+  }
 
   png_init_io(png, stream);
   CHECK_ERROR();
-- 
2.43.0


From b137ae79a41699031c8ebdbb5af0094be0829796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:17 +0000
Subject: [PATCH 12/38] fix: BMP pictures with a colour table are read again

---
 src/input-bmp.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..97aee68 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -482,7 +482,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     if (!ReadOK(fd, rgb, size)) {
       LOG("Bad colormap\n");
       at_exception_fatal(exp, "Bad colormap");
-      goto cleanup;
+      return 0;
     }
 
     /* Bitmap save the colors in another order! But change only once! */
@@ -492,8 +492,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
-cleanup:
-  return 0;
+  return 1;
 }
 
 static int
-- 
2.43.0


From 3d616717dda35f1cc4d9ed2ea8fa59b309287699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:26 +0000
Subject: [PATCH 13/38] fix: no handler instead of a crash for file names
 without a suffix

---
 src/input.cpp  | 3 ++-
 src/output.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index af0ac19..85742c3 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -68,9 +68,10 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
 
 at_bitmap_reader *at_input_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_input_get_handler_by_suffix(dot_pos);
 }
diff --git a/src/output.cpp b/src/output.cpp
index 76435ae..9ca21a8 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -66,9 +66,10 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
 
 at_spline_writer *at_output_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_output_get_handler_by_suffix(dot_pos);
 }
-- 
2.43.0


From 24f581a2bdaf82c46a64de9ea8d62b5856832315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:56 +0000
Subject: [PATCH 14/38] fix: the preserve-width option takes effect

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 811d213..7cd4674 100644
--- a/src/main.c
+++ b/src/main.c
@@ -402,7 +402,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       output_writer = at_output_get_handler_by_suffix(optarg);
       if (output_writer == NULL)
         FATAL(_("Output format %s is not supported"), optarg);
-    } else if (ARGUMENT_IS("preserve_width"))
+    } else if (ARGUMENT_IS("preserve-width"))
       fitting_opts->preserve_width = true;
 
     else if (ARGUMENT_IS("remove-adjacent-corners"))
-- 
2.43.0


From d2f2a46d70cf95513803534a95a1872178169ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:15 +0000
Subject: [PATCH 15/38] fix: option flags have the size getopt stores

---
 src/logreport.c |  2 +-
 src/logreport.h |  2 +-
 src/main.c      | 14 +++++++-------
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/logreport.c b/src/logreport.c
index 5936c42..2b021a6 100644
--- a/src/logreport.c
+++ b/src/logreport.c
@@ -6,4 +6,4 @@
 
 #include "logreport.h"
 
-bool logging = false;
+int logging = 0;
diff --git a/src/logreport.h b/src/logreport.h
index 4c58f08..1358fe6 100644
--- a/src/logreport.h
+++ b/src/logreport.h
@@ -17,7 +17,7 @@
 #endif
 
 /* Whether to write a log */
-extern bool logging;
+extern int logging;
 
 #define LOG(...)								\
   do { if (logging) fprintf (stdout, __VA_ARGS__); } while (0)
diff --git a/src/main.c b/src/main.c
index 7cd4674..4915786 100644
--- a/src/main.c
+++ b/src/main.c
@@ -41,13 +41,13 @@ static char *output_name = (char *)"";
 static at_spline_writer *output_writer = NULL;
 
 /* Whether to print version information */
-static bool printed_version;
+static int printed_version;
 
 /* Whether to dump a bitmap file */
-static bool dumping_bitmap = false;
+static int dumping_bitmap = 0;
 
 /* Report tracing status in real time (--report-progress) */
-static bool report_progress = false;
+static int report_progress = 0;
 #define dot_printer_max_column 50
 #define dot_printer_char '|'
 static void dot_printer(float percentage, void *client_data);
@@ -264,7 +264,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   = { {"align-threshold", 1, 0, 0},
   {"background-color", 1, 0, 0},
   {"debug-arch", 0, 0, 0},
-  {"debug-bitmap", 0, (int *)&dumping_bitmap, 1},
+  {"debug-bitmap", 0, &dumping_bitmap, 1},
   {"centerline", 0, 0, 0},
   {"charcode", 1, 0, 0},
   {"color-count", 1, 0, 0},
@@ -282,7 +282,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"line-threshold", 1, 0, 0},
   {"list-output-formats", 0, 0, 0},
   {"list-input-formats", 0, 0, 0},
-  {"log", 0, (int *)&logging, 1},
+  {"log", 0, &logging, 1},
   {"noise-removal", 1, 0, 0},
   {"output-file", 1, 0, 0},
   {"output-format", 1, 0, 0},
@@ -291,8 +291,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"remove-adjacent-corners", 0, 0, 0},
   {"remove-knees",    0, 0, 0 },
   {"tangent-surround", 1, 0, 0},
-  {"report-progress", 0, (int *)&report_progress, 1},
-  {"version", 0, (int *)&printed_version, 1},
+  {"report-progress", 0, &report_progress, 1},
+  {"version", 0, &printed_version, 1},
   {"width-weight-factor", 1, 0, 0},
   {0, 0, 0, 0}
   };
-- 
2.43.0


From 8d79b2a647e6799d3f0b290c87e03591ec010883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:16 +0000
Subject: [PATCH 16/38] fix: -help does not free pointers it never set

---
 src/main.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4915786..5ca880f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -363,12 +363,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       fitting_opts->filter_iterations = atou(optarg);
 
     else if (ARGUMENT_IS("help")) {
-      char *ishortlist, *oshortlist;
       fprintf(stderr, _("Usage: %s [options] <input_file_name>.\n"), argv[0]);
       fprintf(stderr, USAGE1);
       /*fprintf(stderr, USAGE2, ishortlist = at_input_shortlist(), oshortlist = at_output_shortlist());*/
-      free(ishortlist);
-      free(oshortlist);
       fprintf(stderr, _("\nYou can get the source code of autotrace from \n%s\n"), at_home_site());
       exit(0);
     }
-- 
2.43.0


From 2a43ba103edb4a3d171a0020133af6d646e6809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:43 +0000
Subject: [PATCH 17/38] fix: do not carry run-length data from one TGA file
 into the next

---
 src/input-tga.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..02feccd 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -159,9 +159,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char statebuf[RLE_PACKETSIZE * 4]; /* at most four bytes per pixel */
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -203,9 +203,7 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
       /* We can copy directly into the image buffer. */
       p = buf + j;
     } else {
-      /* Allocate the state buffer if we haven't already. */
-      if (!statebuf)
-        statebuf = (unsigned char *)malloc(RLE_PACKETSIZE * datasize);
+      /* Decode into the state buffer. */
       p = statebuf;
     }
 
-- 
2.43.0


From 45601cbef6da666906d7d0dff6e72b3823dea401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:57 +0000
Subject: [PATCH 18/38] fix: thin on white when no background colour is given,
 whatever was thinned before

---
 src/thin-image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..0344581 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -114,6 +114,8 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 
   if (bg)
     background = *bg;
+  else
+    background.r = background.g = background.b = 0xff;
 
   bm.height = image->height;
   bm.width = image->width;
-- 
2.43.0


From 54c8fa1a66f825b521695cf4a46e7bd69faf3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:58 +0000
Subject: [PATCH 19/38] fix: start every FIG file with its own colours and
 bounding box

---
 src/output-fig.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 8241115..e96a3c0 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -169,6 +169,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     }
   }
 /*	Each "spline list" in the array appears to be a group of splines */
+  glo_bbox_flag = loc_bbox_flag = 0;
   fig_depth = SPLINE_LIST_ARRAY_LENGTH(shape) + 20;
   if (fig_depth > 999) {
     fig_depth = 999;
@@ -373,6 +374,7 @@ static void fig_col_init(void)
     fig_hash[i].colour = 0;
     fig_colour_map[i].alternate = 0;
   }
+  LAST_FIG_COLOUR = 32;
 
   /*  populate the first 8 primary colours  */
   /* Black */
-- 
2.43.0


From 4136718a85df55d7ec15febddf434ac0214a3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:59 +0000
Subject: [PATCH 20/38] fix: start every ILDA file with a new frame

---
 src/output-ild.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..8193e77 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -970,6 +970,8 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
     return;
 
   drawsequence = newLaserSequence();
+  drawframe = NULL;
+  inserted_anchor_points = 0;
 
   LastPoint.x = 0;
   LastPoint.y = 0;
-- 
2.43.0


From 6fe6736476a9166158788b1643f843e275fb4830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:57 +0000
Subject: [PATCH 21/38] fix: do not close a path that was never begun when an
 SVG has no outlines

---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From 0507f3259a4444d8ffe207d6f835e987a63b689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:58 +0000
Subject: [PATCH 22/38] fix: delete no brush in an EMF file that has no
 outlines

---
 src/output-emf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index e91cf15..20f5c2a 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -851,8 +851,10 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    nrecords++;
+    filesize += WriteDeleteObject(NULL, 0);
+  }
 
   // emf stats :: header + footer
   nrecords += 2;
@@ -970,7 +972,8 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   //cleanup DC
   if (last_stroke)
     WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From 60fe298eef6d02040cc9d75a5e4d83d8af9f9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:59 +0000
Subject: [PATCH 23/38] fix: treat a BMP picture without a colour table as
 coloured, not as whatever the stack holds

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 97aee68..36e5163 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -137,7 +137,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 {
   FILE *fd;
   unsigned char buffer[64];
-  int ColormapSize, rowbytes, Maps, Grey;
+  int ColormapSize, rowbytes, Maps, Grey = 0;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
-- 
2.43.0


From a2b2b989cbe768f65b004834a13a4aa3679e972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:28 +0000
Subject: [PATCH 24/38] fix: Leave the input options alone when reading a GF
 font

The GF reader stored the code of the first character in the caller's options
when none was given, so that the next file read with the same options used
that code instead of its own first character.
---
 src/input-gf.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 972b812..02542bf 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -655,12 +655,13 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
   unsigned int i, j, ptr;
+  unsigned int charcode = opts->charcode;
 
   if (!gf_open(font, filename)) {
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
-  if (opts->charcode == 0) {
+  if (charcode == 0) {
     /* Find a first character in font file. */
     for (i = 0; i < 256; ++i)
       if (font->char_loc[i].char_pointer != -1)
@@ -669,16 +670,16 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-    opts->charcode = i;
+    charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)opts->charcode)) {
+  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = opts->charcode;
+  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From f4053310363ca3aaa92460a0765fe8b81aaaa55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:32 +0000
Subject: [PATCH 25/38] fix: Give assigned fitting options their own background
 colour

The default assignment copied the pointer, so that both objects used one
colour and both deleted it.
---
 src/wrapper/FittingOptions.cpp | 10 ++++++++++
 src/wrapper/FittingOptions.h   |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 80e41fd..be6557a 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -27,6 +27,16 @@ FittingOptions::FittingOptions() : fitting_opts_type() {
   width_weight_factor = 6.0;
 }
 
+FittingOptions& FittingOptions::operator=(const FittingOptions &other) {
+  if (this != &other) {
+    at_color *color = other.background_color ? new at_color(*other.background_color) : nullptr;
+    delete background_color;
+    fitting_opts_type::operator=(other);
+    background_color = color;
+  }
+  return *this;
+}
+
 FittingOptions::~FittingOptions() {
   delete background_color;
 }
diff --git a/src/wrapper/FittingOptions.h b/src/wrapper/FittingOptions.h
index fdea75b..6de740d 100644
--- a/src/wrapper/FittingOptions.h
+++ b/src/wrapper/FittingOptions.h
@@ -13,7 +13,7 @@ public:
   virtual ~FittingOptions();
 
   FittingOptions(const FittingOptions& other);
-  FittingOptions& operator=(const FittingOptions& other) = default;
+  FittingOptions& operator=(const FittingOptions& other);
 
   explicit FittingOptions(json11::Json fittingOptionsJson);
 
-- 
2.43.0


From a64d598f1793c61547cd8d9283e87ea7a9a13620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 26/38] fix: Give assigned input options their own background
 colour

The default assignment copied the pointer, so that both objects used one
colour and both deleted it.
---
 src/wrapper/InputOptions.cpp | 10 ++++++++++
 src/wrapper/InputOptions.h   |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wrapper/InputOptions.cpp b/src/wrapper/InputOptions.cpp
index d3d245e..471a57e 100644
--- a/src/wrapper/InputOptions.cpp
+++ b/src/wrapper/InputOptions.cpp
@@ -43,6 +43,16 @@ json11::Json InputOptions::toJson() const {
   return json11::Json{inputObjectJson};
 }
 
+InputOptions& InputOptions::operator=(const InputOptions &other) {
+  if (this != &other) {
+    at_color *color = other.background_color ? new at_color(*other.background_color) : nullptr;
+    delete background_color;
+    at_input_opts_type::operator=(other);
+    background_color = color;
+  }
+  return *this;
+}
+
 InputOptions::~InputOptions() {
   delete background_color;
 }
diff --git a/src/wrapper/InputOptions.h b/src/wrapper/InputOptions.h
index 45c2abb..73c10fc 100644
--- a/src/wrapper/InputOptions.h
+++ b/src/wrapper/InputOptions.h
@@ -14,7 +14,7 @@ public:
   virtual ~InputOptions();
 
   InputOptions(const InputOptions &other);
-  InputOptions& operator=(const InputOptions& other) = default;
+  InputOptions& operator=(const InputOptions& other);
 
   explicit InputOptions(json11::Json inputOptionsJson);
 
-- 
2.43.0


From 390998c8559bf5318d7c31848f2547403291bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:36 +0000
Subject: [PATCH 27/38] fix: Let Options keep its own background colours

Options copied the pointers of the option sets it was made from, so that it
used freed memory once one of them was gone.
---
 src/wrapper/Options.cpp | 21 +++++++++++++++++++--
 src/wrapper/Options.h   |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Options.cpp b/src/wrapper/Options.cpp
index 2db88e1..cc663cd 100644
--- a/src/wrapper/Options.cpp
+++ b/src/wrapper/Options.cpp
@@ -4,9 +4,26 @@
 
 #include "Options.h"
 
+// A copy with a background colour of its own.
+template <class T>
+static T ownColor(T options) {
+  if (options.background_color)
+    options.background_color = new at_color(*options.background_color);
+  return options;
+}
+
 Options::Options(const at_fitting_opts_type &fittingOptions, const at_input_opts_type &inputOptions,
-                 const at_output_opts_type &outputOptions) : fittingOptions(fittingOptions),
-                                                             inputOptions(inputOptions),
+                 const at_output_opts_type &outputOptions) : fittingOptions(ownColor(fittingOptions)),
+                                                             inputOptions(ownColor(inputOptions)),
                                                              outputOptions(outputOptions) {
 
 }
+
+Options::Options(const Options &other) : Options(other.fittingOptions, other.inputOptions, other.outputOptions) {
+
+}
+
+Options::~Options() {
+  delete fittingOptions.background_color;
+  delete inputOptions.background_color;
+}
diff --git a/src/wrapper/Options.h b/src/wrapper/Options.h
index 688c3a1..5d3e41c 100644
--- a/src/wrapper/Options.h
+++ b/src/wrapper/Options.h
@@ -12,6 +12,8 @@ public:
   Options(const at_fitting_opts_type &fittingOptions,
           const at_input_opts_type &inputOptions,
           const at_output_opts_type &outputOptions);
+  Options(const Options &other);
+  ~Options();
 
   const at_fitting_opts_type fittingOptions;
   const at_input_opts_type inputOptions;
-- 
2.43.0


From f08d64f99f154302beced39527b7199e8ca0d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:08 +0000
Subject: [PATCH 28/38] fix: free the array of outlines with the shape

---
 src/spline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spline.c b/src/spline.c
index 191caa3..f531a6e 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(spline_list_array->data);
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From c55cefda3a5aa9af830d88eb9e9f95887ba2d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:08 +0000
Subject: [PATCH 29/38] fix: free the names of dump files in the command line
 program

---
 src/main.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5ca880f..a5d545e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -81,7 +81,7 @@ int main(int argc, char *argv[])
   at_fitting_opts_type *fitting_opts;
   at_input_opts_type *input_opts;
   at_output_opts_type *output_opts;
-  char *input_name, *input_rootname;
+  char *input_name, *input_basename, *input_rootname;
   char *dumpfile_name = NULL;
   at_splines_type *splines;
   at_bitmap *bitmap;
@@ -108,16 +108,10 @@ int main(int argc, char *argv[])
   if (output_name != NULL && input_name != NULL && 0 == strcasecmp(output_name, input_name))
     FATAL(_("Input and output file may not be the same\n"));
 
-  if ((input_rootname = remove_suffix(get_basename(input_name))) == NULL)
+  input_basename = get_basename(input_name);
+  if ((input_rootname = remove_suffix(input_basename)) == NULL)
     FATAL(_("Not a valid input file name %s"), input_name);
 
-  /* BUG: Sometimes input_rootname points to the heap, sometimes to
-     the stack, so it can't safely be freed. */
-/*
-  if (input_rootname != input_name)
-    free (input_rootname);
-*/
-
   /* Set input_reader if it is not set in command line args */
   if (!input_reader)
     input_reader = at_input_get_handler(input_name);
@@ -179,7 +173,11 @@ int main(int argc, char *argv[])
     fprintf(dump_file, "%d\n", 255);
     dump(bitmap, dump_file);
     fclose(dump_file);
+    if (dumpfile_name != input_rootname)
+      free(dumpfile_name);
   }
+  if (input_rootname != input_basename)
+    free(input_rootname);
 
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
-- 
2.43.0


From 66cf95c7c28e9b97324fa45fbc1b91267746e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:09 +0000
Subject: [PATCH 30/38] fix: free the colour map when a TGA file ends inside it

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 02feccd..e493395 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -391,6 +391,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-- 
2.43.0


From 0c2d68caad28dc0c9b5c7093d4a73b0a3d8fad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:10 +0000
Subject: [PATCH 31/38] fix: close GF files that cannot be used

---
 src/input-gf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 02542bf..eafffe6 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -658,6 +658,8 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   unsigned int charcode = opts->charcode;
 
   if (!gf_open(font, filename)) {
+    if (font->input_file)
+      fclose(font->input_file);
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
@@ -667,6 +669,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       if (font->char_loc[i].char_pointer != -1)
         break;
     if (i >= 256) {
+      fclose(font->input_file);
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-- 
2.43.0


From a704ace4db502861e259504d39a156f64f244aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:11 +0000
Subject: [PATCH 32/38] fix: free the colour names of the MIF writer

---
 src/output-mif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 12849ff..2b04f9d 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -187,5 +187,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+
+  for (i = 0; i < n_ctbl; i++)
+    free(col_tbl[i].tag);
   return 0;
 }
-- 
2.43.0


From c27bcf4b940d9aa049f57ae266aa67577416b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:11 +0000
Subject: [PATCH 33/38] fix: free the chunk list of the DR2D writer

---
 src/output-dr2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index c54daf2..cf2e410 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -635,6 +635,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   FreeChunk(CMAPChunk);
   WriteChunks(file, ChunkList, NumSplines);
   FreeChunks(ChunkList, NumSplines);
+  free(ChunkList);
 
   return 0;
 }
-- 
2.43.0


From ae31a6351e18ed503c4d26b490bddce20f73428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:12 +0000
Subject: [PATCH 34/38] fix: free the outlines when a trace is cancelled
 between two stages

---
 src/autotrace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..81c49f9 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -294,7 +294,7 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
-- 
2.43.0


From dd625fdebfd102b5299572fd2b29e41fefd53e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:13 +0000
Subject: [PATCH 35/38] fix: release the curves of a trace that fails while
 fitting

---
 src/fit.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..77ac6d2 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -148,11 +148,8 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     LOG("\nFitting curve list #%u:\n", this_list);
 
     curve_list_splines = fit_curve_list(curves, fitting_opts, dist, exception);
-    if (at_exception_got_fatal(exception)) {
-      if (char_splines.background_color)
-        at_color_free(char_splines.background_color);
+    if (at_exception_got_fatal(exception))
       goto cleanup;
-    }
     curve_list_splines.clockwise = curves.clockwise;
 
     memcpy(&(curve_list_splines.color), &(O_LIST_OUTLINE(pixel_outline_list, this_list).color), sizeof(at_color));
@@ -265,9 +262,13 @@ static spline_list_type fit_curve_list(curve_list_type curve_list, fitting_opts_
     LOG("\nFitting curve #%u:\n", this_curve);
 
     curve_splines = fit_curve(current_curve, fitting_opts, exception);
-    if (at_exception_got_fatal(exception))
+    if (at_exception_got_fatal(exception)) {
+      if (curve_splines != NULL) {
+        free_spline_list(*curve_splines);
+        free(curve_splines);
+      }
       goto cleanup;
-    else if (curve_splines == NULL) {
+    } else if (curve_splines == NULL) {
       LOG("Could not fit curve #%u", this_curve);
       at_exception_warning(exception, "Could not fit curve");
     } else {
@@ -534,8 +535,10 @@ static index_list_type find_corners(pixel_outline_type pixel_outline, fitting_op
         q = i % O_LENGTH(pixel_outline);
         find_vectors(q, pixel_outline, &in_vector, &out_vector, fitting_opts->corner_surround);
         corner_angle = Vangle(in_vector, out_vector, exception);
-        if (at_exception_got_fatal(exception))
+        if (at_exception_got_fatal(exception)) {
+          free_index_list(&equally_good_list);
           goto cleanup;
+        }
 
         /* If we come across a corner that is just as good as the
            best one, we should make it a corner, too.  This
-- 
2.43.0


From 5c67444b63a1c5d4f066c2d5b73d35763ec6b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:19 +0000
Subject: [PATCH 36/38] fix: free the chunk list of the DR2D writer when memory
 runs out

---
 src/output-dr2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index cf2e410..1a95c42 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -418,6 +418,7 @@ static struct Chunk **GeneratexPLY(struct Chunk *CMAP, spline_list_array_type sh
     if ((PolyChunk = (struct Chunk *)malloc(sizeof(struct Chunk))) == NULL) {
       fprintf(stderr, "Insufficient memory to allocate xPLY chunk\n");
       FreeChunks(ChunkList, ListPoint);
+      free(ChunkList);
       return NULL;
     }
 
@@ -430,6 +431,7 @@ static struct Chunk **GeneratexPLY(struct Chunk *CMAP, spline_list_array_type sh
       free(PolyChunk);
       free(PolyData);
       FreeChunks(ChunkList, ListPoint);
+      free(ChunkList);
       return NULL;
     }
 
-- 
2.43.0


From 0f36b30c7c88c969fa65baab5090edd52edc657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:04 +0000
Subject: [PATCH 37/38] fix: accept JSON colours with components of 0 and 255

---
 src/wrapper/Json/JsonHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 81817c0..3566671 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -56,9 +56,9 @@ std::optional<at_color> JsonHelper::getColor(Json::object jsonObject, std::strin
       return std::nullopt;
     }
 
-    const auto colorsInRange = [](const auto colorValue){ return colorValue > 0 && colorValue < 255; };
+    const auto colorsInRange = [](const auto colorValue){ return colorValue >= 0 && colorValue <= 255; };
 
-    if(!colorsInRange(*maybeRed) && !colorsInRange(maybeGreen) && !colorsInRange(maybeBlue)) {
+    if(!colorsInRange(*maybeRed) || !colorsInRange(*maybeGreen) || !colorsInRange(*maybeBlue)) {
       return std::nullopt;
     }
 
-- 
2.43.0


From 8359437f7a95d55a32095bdbca9111417f6f04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:06 +0000
Subject: [PATCH 38/38] fix: keep remove_knees when fitting options go through
 JSON

---
 src/wrapper/FittingOptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index be6557a..f35a1d8 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -88,6 +88,7 @@ FittingOptions::FittingOptions(json11::Json fittingOptionsJson) : FittingOptions
   setDecimal(noise_removal, "noise_removal");
   setDecimal(width_weight_factor, "width_weight_factor");
   setBoolean(remove_adjacent_corners, "remove_adjacent_corners");
+  setBoolean(remove_knees, "remove_knees");
   setBoolean(centerline, "centerline");
   setBoolean(preserve_width, "preserve_width");
 }
@@ -117,6 +118,7 @@ json11::Json FittingOptions::toJson() const {
   fittingOptionsJson.emplace("noise_removal", noise_removal);
   fittingOptionsJson.emplace("width_weight_factor", width_weight_factor);
   fittingOptionsJson.emplace("remove_adjacent_corners", remove_adjacent_corners);
+  fittingOptionsJson.emplace("remove_knees", remove_knees);
   fittingOptionsJson.emplace("centerline", centerline);
   fittingOptionsJson.emplace("preserve_width", preserve_width);
 
-- 
2.43.0


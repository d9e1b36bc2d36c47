import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["bytes written by SaveTo/Save"],hook_needed=None)))
SAVE="bytes written by SaveTo/Save"
p("C01","Every saved file is a structurally valid, self-consistent PDF",
 "Whatever supported template is opened and whatever sequence of inserts, font, image, page and protection calls follows, a successful save yields a file whose startxref, cross-reference rows (exact offsets, 20-byte rows, one linked list of all free entries), trailer Size/Root, object headers, dictionaries and stream lengths are all mutually consistent. Every reference reachable from the trailer resolves to exactly one object, all compressed streams decode, and the page tree's Count/Kids/Parent entries agree.",
 ["inputs","histories","configurations"],"all supported templates x all histories of API calls x protection on/off",
 "The tests only check that Save returns nil on a few corpus files; nothing re-reads the output, and object numbering depends on template ids, fonts, images and map order.",
 ["pdft.go","pdf_data.go","pdf_font_data.go","pdf_obj_data.go","pdf_obj_property_data.go"],
 [("object serialisation and xref table","pdft.go:toStream/xref"),("object id allocation","pdft.go:build, pdf_data.go:putNewObject"),("page tree rewrite","pdft.go:setPages")],
 [dict(name="PDFData.objs/objIDs",meaning="parsed and added objects",where="pdf_data.go")])
p("C02","Saving never alters the template's own pages and objects",
 "Filling a template only adds to it: every template page keeps its order, its boxes, its own drawing operators (same operators, operands and order, still drawn before anything inserted), and every font, image, annotation and other object its resources or dictionaries named still resolves under the same name to the same value.",
 ["inputs","histories"],"all supported templates (tree shapes, resource layouts, filters, names) x all insert histories",
 "Tests never compare the output with the template; resource layouts (inline/indirect/inherited/shared, odd names) are a product space no sample covers.",
 ["pdf_data.go","crawl.go","crawl_result.go","crawl_result_font.go","crawl_result_x_object.go","pdf_obj_property_data.go","pdf_parse.go"],
 [("resource injection","pdf_data.go:injectFontsToPDF/injectImgsToPDF"),("content injection","pdf_data.go:injectContentToPDF"),("dictionary reader/writer","pdf_obj_property_data.go")])
p("C03","Inserted text appears once, on the asked page, at the asked place and look",
 "Every successful text insert draws its text exactly once, only on the requested page (numbered as in the saved document, whatever its size), after the template content and in call order, at the point the x, y, w, h and alignment arguments define, measured from the left origin and the top edge of the page's media box, in the font and size current at the call. Its fill colour is the colour passed (black when none), unaffected by other inserts or by graphics state the template left behind.",
 ["inputs","histories"],"all texts, pages, coordinates, boxes, alignments, sizes, colours, templates and orders of calls",
 "Tests insert a handful of strings and never look at the resulting operators.",
 ["pdft.go","content_text.go","pdf_data.go","minigopdf/cache_content_text.go"],
 [("Insert bookkeeping","pdft.go:Insert/pageHeight"),("operators of a text run","minigopdf/cache_content_text.go:toStream/calX/calY"),("append to page content","pdf_data.go:injectContentToPDF")],
 [dict(name="PDFt.contenters",meaning="queued inserts",where="pdft.go"),dict(name="PDFData.pageSizes",meaning="page boxes by index",where="pdf_data.go")])
p("C04","Embedded fonts show the inserted characters with the font's own glyphs",
 "For every TTF accepted and every text inserted with it, the glyph shown for each character is the one the font's character map assigns, the embedded font program holds that glyph's outline unchanged (including all components of composite glyphs, however nested), the declared widths are the font's advance widths scaled to 1000 units, and the ToUnicode map sends each shown code back to a character the text used for that glyph. Several fonts in one document never mix.",
 ["inputs"],"all TrueType fonts (cmap 4/12, short/long loca, composites, any unitsPerEm, shared glyphs) x all texts x sets of fonts",
 "Tests embed three real fonts with a few strings and never read the embedded program back.",
 ["minigopdf/subset_font_obj.go","minigopdf/pdf_dictionary_obj.go","minigopdf/cid_font_obj.go","minigopdf/unicode_map.go","minigopdf/subfont_descriptor_obj.go","minigopdf/fontmaker/core/ttfparser.go","pdf_font_data.go"],
 [("TTF parser","minigopdf/fontmaker/core/ttfparser.go"),("subsetting","minigopdf/pdf_dictionary_obj.go:makeFont/completeGlyphClosure"),("widths","minigopdf/cid_font_obj.go"),("ToUnicode","minigopdf/unicode_map.go")])
p("C05","MeasureTextWidth equals the width the text occupies when drawn",
 "For every font, size, kerning callback and text, MeasureTextWidth returns the sum of the advances (and kerning adjustments) that inserting that text writes into the saved document, and right/centre alignment uses the same width. Measuring never changes what a later save draws.",
 ["inputs","histories"],"all fonts x sizes x texts x interleavings of measuring with inserting",
 "One test measures one string; agreement with the drawn operators is never checked.",
 ["pdft.go","content_text.go","minigopdf/cache_content_text.go","minigopdf/subset_font_obj.go"],
 [("measure and draw share createContent","minigopdf/cache_content_text.go:createContent"),("MeasureTextWidth","pdft.go")],None,["return value of MeasureTextWidth",SAVE])
p("C06","Wrapped text keeps all words in order, in lines that fit, evenly spaced",
 "InsertWrapText draws the tokens of the text in order with none lost, duplicated or split, only white space at line edges dropped; each line is the longest run of tokens not wider than the box (a single over-wide token gets its own line) and no empty line is produced. Lines follow each other 1.2 font sizes apart starting at the box's own line position (shifted up as a block for Middle), each aligned in the box like a plain insert; without a breaker the text is inserted on one line.",
 ["inputs","configurations"],"all texts, widths, fonts, alignments and text breakers",
 "One render test wraps one sentence and checks nothing about the lines.",
 ["pdft.go","textbreak/basic_textbreak.go","textbreak/text_breaker.go"],
 [("greedy wrapping","pdft.go:InsertWrapText")])
p("C07","Inserted images show the same pixels, in the asked box on the asked page",
 "Every JPEG or PNG that an image insert accepts is drawn exactly once, on the requested page, scaled to exactly the given x, y, w, h box measured from the left origin and the top edge of the page's media box, and decoding the stored image gives the source's pixels: JPEG bytes verbatim, PNG colour and alpha samples identical for every supported colour type, bit depth, palette, filter and chunk layout. An image it cannot represent is refused with an error rather than drawn wrong.",
 ["inputs","histories"],"all JPEG/PNG files x templates x placements x entry points (bytes, base64, cached)",
 "Tests insert a few files and check only for a nil error; colour types, chunk sizes and multi-image documents are not sampled.",
 ["pdft.go","content_img_base64.go","pdf_image_data.go","pdf_data.go","minigopdf/image_obj.go","minigopdf/image_obj_parse.go","minigopdf/smask_obj.go","minigopdf/device_rgb_obj.go"],
 [("PNG chunk parser","minigopdf/image_obj_parse.go:paesePng"),("image dictionary","minigopdf/image_obj_parse.go:buildImgProp"),("XObject naming","pdf_data.go:injectImgsToPDF")])
p("C08","The image cache stores each distinct image once and never mixes images",
 "However cached inserts of various images are interleaved with each other, with uncached inserts, page operations and saves, each placement shows its own image, and the output holds exactly one image object per distinct cached image (and its soft mask) while each uncached insert keeps its own. The cache never outlives the document it belongs to.",
 ["histories"],"all sequences of cached/uncached inserts over any set of images and pages, with re-opens",
 "The cache test inserts the same picture repeatedly and only checks for nil errors.",
 ["pdft.go"],[("md5-keyed cache","pdft.go:InsertImgWithCache")],[dict(name="PDFt.pdfImgsMd5Map",meaning="image cache",where="pdft.go")])
p("C09","Page operations act like operations on a list of pages",
 "DuplicatePageAfter, RemovePage and RemoveOtherPages transform the document exactly as the same operation on a list of pages (1-based target; copy placed right after the 0-based, possibly negative position), GetNumberOfPage always reports the current length and the saved document has those pages in that order with unchanged content, boxes and resources. A target or position that names no page returns an error and changes nothing.",
 ["histories","inputs"],"all finite sequences of page operations with any integer arguments on any page tree shape, mixed with inserts and saves",
 "Tests apply one operation to one file and check for nil; sequences, bounds and nested trees are not covered.",
 ["pdft.go","pdf_data.go"],[("page list rewrite","pdft.go:setPages"),("page enumeration","pdf_data.go:getPageObjIDs"),("object copy","pdft.go:DuplicatePageAfter")],None,["GetNumberOfPage","returned errors",SAVE])
p("C10","A duplicated page and its source are independent",
 "After a page is duplicated, text and images inserted on the copy or on the source appear only on the page they were aimed at, and removing either leaves the other intact with its content, resources and boxes. This also holds for pages that share content streams or resources in the template and for copies of copies.",
 ["histories"],"all interleavings of duplication, removal and inserts",
 "The duplicate test saves and never looks at which page received what.",
 ["pdft.go","pdf_data.go"],[("content object copy","pdft.go:DuplicatePageAfter"),("per-page content","pdf_data.go:injectContentToPDF")])
p("C11","Protected output opens with exactly the given passwords and rights",
 "A document saved with protection declares exactly the granted permissions, authenticates with the user password and with the owner password under the PDF standard security handler and with no other password, and after decryption every stream and string equals what the unprotected save would hold. Without either password none of the inserted or template stream data is readable.",
 ["inputs","histories","configurations"],"all permission sets, passwords (empty, long, binary) x templates x inserts x repeated saves",
 "The protection test only compares one key vector and one save for nil error.",
 ["pdft.go","pdf_obj_data.go","minigopdf/pdf_protection.go","minigopdf/encryption_obj.go"],
 [("key derivation","minigopdf/pdf_protection.go"),("object encryption","pdf_obj_data.go:encrypt"),("encryption dictionary","minigopdf/encryption_obj.go")])
p("C12","Saving is a pure snapshot: repeatable, and editing can continue afterwards",
 "Saving any number of times, to a file or a writer, yields equivalent documents and changes nothing: a save after k further calls equals the save of a fresh session that made all the calls at once. Opening another template on the same value starts from a clean document with no trace of the previous one.",
 ["histories"],"all interleavings of edits, saves and re-opens, with fonts, images and protection",
 "No test saves twice or reuses a value.",
 ["pdft.go","pdf_data.go","pdf_font_data.go","minigopdf/subset_font_obj.go","minigopdf/pdf_dictionary_obj.go"],
 [("build works on a copy","pdft.go:build"),("font object builders","pdf_font_data.go:build"),("state reset","pdft.go:OpenFrom")])
p("C13","Saved documents can be reopened and edited again without losing anything",
 "Every unprotected file pdft saves can be opened by pdft again, reports the same pages, and filling it again keeps everything from the earlier rounds - text still shown with its own font, images with their own pixels - while adding the new content, for any number of rounds.",
 ["histories"],"all sequences of open-edit-save rounds",
 "No test feeds an output back in.",
 ["pdft.go","pdf_data.go","pdf_parse.go","crawl_result_font.go","crawl_result_x_object.go"],
 [("resource name allocation","pdf_data.go:findMaxFontIndex/injectImgsToPDF"),("parser","pdf_parse.go")])
p("C14","Independent documents can be processed concurrently without interference",
 "Using separate PDFt, Render or generator values from different goroutines at the same time is free of data races and yields, for each of them, the same document as running it alone, even when they share the same input byte slices, template, font data and text breaker.",
 ["schedules"],"all interleavings of any number of sessions on distinct values",
 "No test starts a goroutine; package-level state would only show under concurrent schedules.",
 ["pdft.go","pdf_data.go","crawl_result_x_object.go","minigopdf/pdf_protection.go","minigopdf/pdf_dictionary_obj.go","minigopdf/fontmaker/core/ttfparser.go","render/render.go"],
 [("no shared mutable package state","all packages")],None,["race detector reports",SAVE])
p("C15","Malformed input is answered with an error, never a crash or hang",
 "For any bytes given as template PDF, image, base64 text or font - truncated, corrupted, cyclic or hostile - opening, adding, inserting, querying and saving either succeed or return an error; they never panic, exhaust the stack or run forever. The same holds for calls made in an unusual order, such as before a document is opened or a font is set.",
 ["inputs","histories"],"all byte strings for every input, and all call orders",
 "Tests feed well-formed files only (and two of them panic).",
 ["pdf_parse.go","pdf_data.go","pdf_obj_data.go","pdf_obj_property_data.go","crawl.go","xref_data.go","minigopdf/image_obj_parse.go","minigopdf/fontmaker/core/ttfparser.go","minigopdf/subset_font_obj.go"],
 [("parse error returns","pdf_parse.go, pdf_obj_data.go, xref_data.go"),("image parser errors","minigopdf/image_obj_parse.go"),("font parser errors","minigopdf/fontmaker/core/ttfparser.go")],None,["returned errors, panics, process exit"])
p("C16","A call that returns an error has no effect on the document",
 "Every call that fails (unknown or duplicate font name, unreadable font, unsupported image, bad base64, failing text breaker, impossible page operation) returns a non-nil error, the documented one where there is one, and leaves the session as if the call had not been made: a later save equals that of the same history without the failed calls.",
 ["histories","fault_sequences"],"all histories with failing calls at any position",
 "Tests make no failing calls.",
 ["pdft.go","pdf_font_data.go","pdf_image_data.go","render/render.go"],
 [("error checks before state changes","pdft.go:Insert/InsertWrapText/InsertImg*/AddFont*/SetFont/page operations")],None,["returned errors",SAVE])
p("C17","I/O chunking is transparent and I/O faults are reported",
 "How the input reader or output writer splits its data never changes the result, Open/Save on paths equal OpenFrom/SaveTo on streams, and any read or write error reaches the caller as an error. A failed save never reports success with a truncated document, never touches the target file if the document could not be built, and a later retry succeeds with the full document.",
 ["fault_sequences","inputs"],"all chunkings of input and output, and a fault at every read/write position",
 "Tests use only plain files and never inject a fault.",
 ["pdft.go","pdf_parse.go","pdf_parse_font.go","minigopdf/gopdf.go","minigopdf/fontmaker/core/ttfparser.go"],
 [("buffered build before write","pdft.go:Save/SaveTo"),("whole-input read","pdf_parse.go:PDFParse, ttfparser.go:ParseByReader")],None,["returned errors","bytes reaching the writer / file"])
p("C18","Render fills exactly the fields its field list describes",
 "A Render built from a field list draws each Text or ImgBase64 call exactly as the direct insert with that field's page, box, alignment, font and size would (wrapping when the field says so and a breaker is set), whatever the number and order of fields and calls; a key not in the list draws nothing and is not an error. The design view draws one bordered '#key' cell per field.",
 ["inputs","histories"],"all field lists and call sequences",
 "One test renders a fixed form and checks nothing in the output.",
 ["render/render.go","render/field_info.go"],[("field lookup","render/render.go:Text/ImgBase64/ShowDesignView"),("field map","render/field_info.go:toMap")])
p("C19","The basic text breaker splits at spaces without losing a character",
 "For every string the basic breaker's tokens concatenate to exactly the input, every space is a token of its own and no other token contains a space.",
 ["inputs"],"all strings, including invalid UTF-8, other white space and very long input",
 "The test checks three sentences.",
 ["textbreak/basic_textbreak.go"],[("rune loop","textbreak/basic_textbreak.go:BreakTextToToken")],None,["returned tokens"])
p("C20","Documents generated from scratch are valid and show what was drawn",
 "Every document the bundled generator package produces - pages, text, cells, images, lines, shapes, fonts, protection in any sequence - is a structurally valid PDF whose pages show the drawn items in order at the given coordinates with the right glyphs and pixels, whose document information is what was set, and whose unprotected form can be opened and filled by pdft.",
 ["inputs","histories"],"all call sequences on the generator",
 "Its tests check only that a few files are written.",
 ["minigopdf/gopdf.go","minigopdf/content_obj.go","minigopdf/list_cache_content.go","minigopdf/page_obj.go","minigopdf/pages_obj.go","minigopdf/procset_obj.go"],
 [("object list and xref","minigopdf/gopdf.go"),("content cache","minigopdf/list_cache_content.go")],None,["bytes of WriteTo/GetBytesPdf"])
p("C21","Kerning and text-rise callbacks are applied to exactly the right pairs",
 "With a kerning or text-rise callback installed, it is asked for each drawn pair or character with the true runes, glyph numbers, font kerning value, size, full text and index, and exactly the values it returns shift the following glyph or baseline in that text and nowhere else - not in other fonts, later texts or texts without the callback.",
 ["inputs","histories"],"all texts, fonts, callbacks and mixes of callback and plain inserts",
 "One test installs a kerning callback and checks one pair in isolation.",
 ["pdft.go","func_textrise_override.go","minigopdf/cache_content_text.go","minigopdf/subset_font_obj.go","minigopdf/fontmaker/core/ttfparser_kern.go"],
 [("kern/textrise","minigopdf/cache_content_text.go:kern/textrise/createContent"),("kern table","minigopdf/fontmaker/core")],None,["callback invocations",SAVE])
p("C22","Caller-owned data is neither modified nor aliased",
 "No call writes to memory the caller passes in (image bytes, password slices including spare capacity, colours, field lists, readers' data), and changing those buffers after a call returns does not change the document saved later.",
 ["histories","inputs"],"all API calls taking slices, pointers or readers, with any later mutation by the caller",
 "No test inspects or mutates its arguments afterwards.",
 ["pdft.go","pdf_image_data.go","content_text.go","minigopdf/pdf_protection.go","minigopdf/image_obj.go"],
 [("private copies","minigopdf/image_obj.go:SetImage, pdft.go"),("password padding","minigopdf/pdf_protection.go:generateEncryptionKey")],None,["caller buffers before/after",SAVE])
p("C23","Cell borders and underlines follow the cell and the current style",
 "While cell borders are shown every text insert strokes the four edges of its own box with the same thin (0.1) dotted line on whatever page it is, and an underlined font style fills one bar spanning its box in addition to the text; neither appears for inserts made while borders are off or the style is not underlined, and decorations never alter the text itself.",
 ["inputs","histories"],"all boxes, pages, styles and interleavings of toggles with inserts",
 "No test looks at the drawn decorations.",
 ["pdft.go","content_line_style.go","minigopdf/cache_content_text.go"],
 [("drawBorder/underline","minigopdf/cache_content_text.go"),("current line width and style","pdft.go:ShowCellBorder/SetFont")])
p("C24","The font parser and font maker report the font's own data",
 "For every TrueType font it accepts, the font parser reports that font's own data: units per em, glyph count, every advance width, the whole character map, all kerning pairs, bounding box, italic angle, underline, typographic, cap and x heights, bold and embedding rights. A font definition made by the font maker holds the font file itself and, for every code of the encoding, the width of its character scaled to 1000 units (the missing glyph's where the font has none, with a warning), the scaled font descriptor, the PostScript name and the list of differences that turns cp1252 into the encoding. A font that may not be embedded, a missing file or damaged input gives an error without writing into the output folder, never a panic.",
 ["inputs"],"all TrueType fonts x encoding maps, intact or damaged",
 "No test looks at parsed metrics or runs the font maker.",
 ["minigopdf/fontmaker/core/ttfparser.go","minigopdf/fontmaker/core/ttfparser_kern.go","minigopdf/fontmaker/core/ttfparser_cmap_other_format.go","minigopdf/fontmaker/core/fontmaker.go","minigopdf/fontmaker/core/ttf_info.go"],
 [("table parsers","minigopdf/fontmaker/core/ttfparser.go"),("definition writer","minigopdf/fontmaker/core/fontmaker.go:MakeFont/MakeDefinitionFile")],None,["parser getters","files in the output folder"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))

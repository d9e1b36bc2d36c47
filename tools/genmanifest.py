import json
T={
"C01":("session monitor + strict file checker","every structural rule of the file (offsets, rows, trailer, references, streams, page tree) is checked by an independent strict reader on every saved document"),
"C02":("conservation monitor against the template","every template page, operator and object reachable in the template is compared with the saved document by an independent reader"),
"C03":("position monitor against a reference model","a reference model of the session predicts page, coordinates, size and colour of every text; the interpreted content streams must show exactly that"),
"C04":("glyph monitor against the source font","every glyph shown is decoded through the embedded font program, widths and ToUnicode and compared with the source font"),
"C05":("measure/draw differential monitor","each measured width is compared with the advance of the drawn text and with the font's own metrics"),
"C06":("trace checker of wrapped lines","greedy line model with independent breakers; lines, tokens and spacing are read back from the document"),
"C07":("pixel monitor with independent decoders","stored images are decoded and compared sample by sample with the generator's pixels"),
"C08":("conservation monitor over image objects","number of image objects and the image of each placement are checked after interleavings of cached and uncached inserts"),
"C09":("model-based history checker","page operations are replayed on a list model; page counts, errors, order and contents are compared after every step"),
"C10":("model-based history checker","inserts on sources and copies are matched per page against the model"),
"C11":("independent security handler as oracle","an own implementation of the standard security handler authenticates, decrypts and compares with the unprotected save"),
"C12":("history-equivalence checker","saves in the middle of a history are compared with fresh sessions of the same prefix"),
"C13":("multi-round history checker","outputs are fed back as templates for several rounds and everything is matched again"),
"C14":("Go race detector + concurrent/alone comparison","actors on distinct values run together under the race detector with random yields; each document is compared with the one made alone"),
"C15":("crash and hang monitor under hostile input","mutated templates, fonts, images and call orders in watched worker processes with memory, stack and time limits"),
"C16":("history-equivalence checker with failing calls","the save after failing calls is compared with the save of the same history without them"),
"C17":("fault injection at I/O positions","readers and writers that split or fail at chosen positions; results and errors are checked"),
"C18":("render/direct differential monitor","each Render call is compared with the direct insert of its field"),
"C19":("token-stream checker","concatenation and splitting rules are checked for every generated string, exhaustively for short ones"),
"C20":("model-based trace checker of the generator","a model of the generator session predicts every item of every page; the interpreted document must show exactly these"),
"C21":("callback trace checker","recorded callback invocations and drawn adjustments are compared with the model"),
"C22":("argument integrity monitor","arguments are compared before and after, and mutated after the call; the save must not change"),
"C23":("decoration monitor against a model","border strokes and underline bars are matched with the inserts that ask for them"),
"C24":("parser/definition differential monitor","everything the parser reports and the written font definition, read back through go/ast, is compared with an own TrueType reader"),
}
checks=[]
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for id in props:
    t,n=T[id]
    checks.append(dict(property=id,quick_cmd=f"VERIF_TIER=quick ./check.sh {id}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {id}",technique="runtime monitoring: "+t,
      level="fault_enumeration" if id=="C17" else "exploration",
      level_note=n+". Holds for the executions explored; trusts the harness's own readers and generators."))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],notes="Black-box monitors on the public API; no hooks in /repo. Defects found were repaired with fix: commits, see known_findings.txt."),open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')

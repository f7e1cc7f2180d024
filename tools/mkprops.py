import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
E='laby_common/src/internal/escape.rs';B='laby_common/src/internal/buffer.rs';R='laby_common/src/render.rs';H='laby/src/helpers.rs';D='laby/src/doctype.rs'
MB='laby_macros/src/build.rs';MN='laby_macros/src/node.rs';ML='laby_macros/src/lib.rs';MC='laby_macros/src/component.rs';MM='laby_macros/src/matching.rs'
p('C01','HTML escaping is exact for every string',
 "Escaping a string appends to the output, after whatever was already there, the string in which every double quote, ampersand, single quote, less-than and greater-than sign is replaced by &quot; &amp; &#39; &lt; &gt; respectively and every other byte is copied unchanged and in order. This holds for every string of every length and content, including characters that share bits with the special ones, and for every way the string and the output happen to lie in memory.",
 ['inputs'],'for all strings, all prior output contents and capacities, and all alignments',
 'tests compare a few dozen fixed strings and one random alphabet; the result must hold for every length, alignment, chunk boundary and byte value',
 [E],[('escape dispatch and small path',E+': escape_impl'),('scalar scanner',E+': naive::proceed, naive::escape, naive::escape_small'),('escape table',E+': ESCAPE_LUT, ESCAPED')])
p('C02','Every escaping implementation and CPU path gives the same result',
 "Whichever escaping implementation is selected at run time (short strings, portable word-at-a-time, SSE2, AVX2), the text appended is identical, on the first call and on every later one. An implementation is only ever run on a processor that supports the instructions it uses.",
 ['inputs','configurations','histories'],'for all strings, all processor feature sets, all call histories',
 'tests run on one machine, so only one implementation is ever selected, and no test reaches the portable or SSE2 code or a processor without AVX2',
 [E],[('feature detection and dispatch',E+': escape_impl::detect'),('portable',E+': fallback::escape'),('SSE2',E+': sse2::escape'),('AVX2',E+': avx2::escape')])
p('C03','Escaping never touches memory outside its input and output',
 "While escaping a string, the library reads only bytes of that string and of its own constant tables and writes only inside the space reserved in the output, never before, past or after the freed storage of either; it never computes an overflowing length and aligned reads are aligned. This holds on every implementation path.",
 ['inputs','configurations'],'for all strings at all addresses, all output capacities, all implementation paths',
 'an out-of-bounds read of a few bytes next to a string is invisible to an assertion on the output, and depends on length modulo vector width and on alignment',
 [E,B],[('raw pointer scanning and over-read blocks',E+': fallback, avx2, sse2'),('raw writes into reserved space',E+': naive::escape_small, push_escaped_str'),('reservation',B+': reserve_small')])
p('C04','The output buffer appends exactly and reserves what it promises',
 "After any sequence of operations an output buffer's contents equal the concatenation of everything appended since it was created or last cleared, with length not exceeding capacity. Reserving n bytes never changes the contents and either makes room for n more bytes or panics when the total would exceed isize::MAX.",
 ['inputs','histories','configurations'],'for all strings and characters appended, all prior contents and capacities, all reservation sizes, debug and release builds',
 'tests never call the buffer directly; growth happens only for particular length/capacity combinations',
 [B],[('append and growth',B+': push_str, push, reserve, reserve_small, reserve_internal'),('allocation',B+': safe_alloc, safe_realloc')])
p('C05','Buffers own their memory and convert losslessly',
 "Creating, cloning, converting to and from strings, and dropping a buffer keep its text intact and its clones independent, and every heap block is allocated, resized and freed exactly once with the size it was allocated with. Zero-capacity buffers never free anything.",
 ['inputs','histories'],'for all contents, capacities (including zero and larger than the length), and conversion sequences',
 'tests never clone or convert buffers, and a mismatched deallocation size or double free goes unnoticed under the default allocator',
 [B],[('construction and clone',B+': with_capacity, Clone, From<&str>, From<String>'),('conversion and release',B+': into_string, Drop')])
p('C06','Integers render as their exact decimal form',
 "Rendering any integer of any primitive or non-zero integer type appends its shortest decimal representation (with a leading minus for negatives, no leading zeros) and nothing else, within space reserved for it.",
 ['inputs'],'for all values of all twelve primitive and twelve non-zero integer types and all prior buffer states',
 'tests render a handful of small integers; extremes of wide types and buffer-full boundaries are not sampled',
 [R],[('integer rendering',R+': impl_int, impl_nonzero_int')])
p('C07','Floats render finitely as shortest round-trip text, else NaN/inf/-inf',
 "Rendering a finite f32 or f64 appends the shortest decimal text that parses back to the same value of that type, within space reserved for it; NaN of any sign or payload renders as NaN, and the infinities as inf and -inf.",
 ['inputs'],'for all 2^32 and 2^64 bit patterns and all prior buffer states',
 'tests render at most a few float literals; classification of NaN payloads, signed zero, subnormals and the reserved size are not sampled',
 [R],[('float rendering and classification',R+': impl_float')])
p('C08','Scalar and wrapper values render as their contents',
 "Characters render escaped like one-character strings, true and false render as those words, unit and None render nothing, and Some(x), both variants of Cow, and owned or borrowed strings render exactly as the value inside. The HTML5 doctype renders as <!DOCTYPE html>.",
 ['inputs'],'for all characters, booleans, options, cows and strings and all prior buffer states',
 'tests cover a handful of values; there are 1.1 million characters and arbitrarily nested wrappers',
 [R,D],[('scalar rendering',R+': Render for (), char, bool, &str, String'),('wrappers',R+': Render for Option, Cow'),('doctype',D)])
p('C09','Formatted arguments render as the escaped formatted text',
 "Rendering format_args!(...) or a Display wrapper appends the HTML-escaped form of the text the standard formatter would produce, however the formatter splits it into pieces or single characters, and never loses, reorders or double-escapes a piece.",
 ['inputs'],'for all format strings, arguments and piece splits produced by Display implementations',
 'tests use two format strings; a Display implementation may write any sequence of strings and characters',
 [R,H],[('escaping writer',R+': Render for Arguments'),('display wrapper',H+': RenderDisplay')])
p('C10','Iterators render every item once, in order, delimiters only between items',
 "Rendering an iterator appends each item it yields up to its first end, exactly once and in order, and consumes it no further. With a delimiter, the delimiter appears exactly between consecutive items, never before the first or after the last, so no item means no output.",
 ['inputs','histories'],'for all iterators (including empty, single-item, non-fused), all items and all delimiters',
 'tests render three fixed vectors; the number and behaviour of items is unbounded',
 [H],[('plain iteration',H+': RenderIterator'),('delimited iteration',H+': RenderIteratorDelimited, iter!, iter_lines!')])
p('C11','Raw text and delimiters are written verbatim',
 "Text wrapped as raw, and the delimiter of a delimited iterator, is appended byte for byte without any escaping, truncation or normalisation.",
 ['inputs'],'for all strings, of all string-like types, and all prior buffer states',
 'tests use a single raw string',
 [H],[('raw wrapper',H+': RenderRaw, raw!'),('delimiter',H+': RenderIteratorDelimited')])
p('C12','Untrusted text cannot break out of its context and can be recovered',
 "Text rendered as a child or attribute value never contributes a raw less-than, greater-than, single or double quote, nor an ampersand that does not begin one of the five entities the library emits. Decoding those entities in the rendered text gives back the original text exactly.",
 ['inputs'],'for all strings, characters, formatted arguments and Cow values',
 'an injection needs one specific missed byte at one specific position; tests sample a few strings',
 [E,R],[('escaping of text values',R+': impl_str, char, Arguments'),('escaping',E)])
p('C13','Element macros produce the documented structure',
 "For each element macro the rendered text is the opening tag with the attributes in source order, each as a space, the name, and the value quoted in double quotes, then the children in source order and the closing tag; void elements have no children and no closing tag. Attributes and children may be mixed in any order and number, and identifier names, including raw identifiers, render as the bare name.",
 ['programs','inputs'],'for all element macro invocations and all run-time values of their attributes and children',
 'tests use a few shapes with fixed values; attribute/child counts, mixtures of literal and dynamic parts and run-time values are unbounded',
 [MB,MN,ML],[('markup generation',MB+': build_inner, set_attr, set_child'),('static text merging and generated code',MN+': NodeRender, NodeCtor, store_generic')])
p('C14','Boolean attributes appear exactly when their condition holds',
 "An attribute given through the boolean wrapper renders as a space and the bare name, with no value, when its condition is true and renders nothing at all when it is false, whether the condition and the name are literals or run-time values, and without affecting its neighbours.",
 ['programs','inputs'],'for all positions, mixtures of literal/dynamic names and conditions and all run-time truth values',
 'tests cover a few combinations; each combination of dynamic conditions doubles the space',
 [MB],[('boolean attributes',MB+': set_boolean_attr')])
p('C15','A literal renders exactly as the same value computed at run time',
 "A literal written as a child, attribute value or attribute name, also inside parentheses or a block, renders exactly the text that a variable holding that literal would render: string, byte, character, boolean, integer and float literals with or without type suffixes, in any radix, with escapes and underscores.",
 ['programs','inputs'],'for all literals accepted by the macros',
 'tests fold six literals; literal syntax (suffixes, radices, escapes, precision) is unbounded',
 [MB],[('compile-time rendering of literals',MB+': try_unwrap_literal, try_render_literal')])
p('C16','Nesting macros directly equals composing them separately',
 "Writing one element, fragment or class-list macro directly inside another renders exactly the same text as building the inner value first and passing it as a child, at any depth and in any position, for every known macro.",
 ['programs','inputs'],'for all nestings of known macros and all run-time values',
 'tests flatten one example; flattening state (void, fragment, delimiter, pending static text) must be kept for every nesting',
 [MB,ML],[('flattening',MB+': build_inner'),('macro lookup',ML+': get_element')])
p('C17','Every attribute and child expression is evaluated exactly once',
 "Each attribute and child expression passed to a macro is evaluated exactly once, when the value is constructed and not when it is rendered, attributes in their order and then children in theirs, and the surrounding variables keep their meaning inside it.",
 ['programs','inputs'],'for all macro invocations with side-effecting expressions',
 'tests use pure expressions only',
 [MN,MB],[('storing expressions',MN+': store_generic, store_concrete, NodeCtor'),('rendering stored values',MB+': set_child, set_attr')])
p('C18','Fragments and class lists concatenate with the right separator',
 "A fragment renders its children in order with nothing in between, and a class list renders its children in order with exactly one space between consecutive children, for any number of children including none, mixing literals, run-time values and nested macros.",
 ['programs','inputs'],'for all argument lists and run-time values',
 'tests use up to three children',
 [MB,MN],[('delimiter emission',MB+': build_inner'),('fragments',MN+': Element::frag, frag_with_delimiter')])
p('C19','Named arguments reach the parameter they name',
 "Calling a component macro passes every named argument to the parameter of that name whatever order the arguments are written in, evaluates each exactly once, and calls the component function exactly once with the parameters in declaration order.",
 ['programs','inputs'],'for all component signatures, argument orders and values',
 'tests call a few components with one or two orders',
 [MC],[('argument matching',MC+': generate_component_macro_call')])
p('C20','Defaults fill only missing parameters and rest collects the others in order',
 "A parameter with a default receives the default, evaluated only then, exactly when it is not given, and the given value otherwise. Every unnamed argument goes, in order and exactly once, to the rest parameter wrapped as a fragment.",
 ['programs','inputs'],'for all component signatures, subsets of given arguments and interleavings with rest arguments',
 'tests use two or three signatures',
 [MC],[('defaults',MC+': pop_default_attr'),('rest',MC+': pop_rest_attr')])
p('C21','Conditional fragments render exactly the selected branch',
 "A conditional fragment over if/else-if/else or match evaluates its condition or scrutinee once, evaluates only the branch or arm that the same plain expression would select, including guards and bindings, and renders exactly that value; without a matching else it renders nothing.",
 ['programs','inputs'],'for all if-chains and matches and all run-time values of their conditions and scrutinees',
 'tests exercise a few values of two small examples',
 [MM],[('branch capture',MM+': generate_from_if, generate_from_match')])
p('C22','Invalid macro uses are rejected at compile time',
 "Children in a void element, attributes in a fragment or class list, unknown, missing or unnamed-without-rest component arguments, two rest parameters, receiver or unnamed-pattern parameters, arguments to the component attribute, and the boolean wrapper outside an attribute value are compile errors, never silently accepted or ignored.",
 ['programs'],'for all macro invocations of these kinds, directly or nested',
 'no existing test checks that anything is rejected',
 [MB,MC,H],[('void/fragment checks',MB+': build_inner'),('component checks',MC+': generate_component_macro, generate_component_macro_call'),('bool macro',H+': bool!')])
p('C23','Every element macro uses its own name and kind, alone and nested',
 "Each of the 101 normal and 14 void element macros renders the tag of its own name, is void exactly when HTML defines it so, and behaves the same when used directly and when nested inside another macro.",
 ['programs'],'for all 115 element macros, standalone and nested',
 'tests exercise a handful of tags',
 [ML,MN],[('tag tables',ML+': declare_tags, get_element')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s); assert len(d['title'])<=80,d['id']
    assert d['statement'].count('. ')<=2
print(len(P))

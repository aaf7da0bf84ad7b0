import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
S="src/scaler.rs";I="src/image_store.rs"
p("C01","A resize never touches memory outside its two images",
 "Every resize of valid images, whatever the pixel format, size, stride, filter, thread setting and CPU, reads only the source image's buffer and writes only the destination image's buffer. It never reads or writes one element beyond either end of them or of its own temporaries, and it never modifies the source.",
 ["inputs","configurations"],"every format x channel count x bit depth x size pair x stride x filter x thread policy x workload strategy x reported CPU feature set",
 "The unit tests run about ten sizes on one CPU without any memory instrumentation; an over-read of a few bytes in a SIMD tail is invisible to them.",
 ["src/avx2","src/avx512","src/sse","src/fixed_point_horizontal.rs","src/floating_point_horizontal.rs",S],
 [("SIMD row kernels using unchecked pointer arithmetic with hand-written tails","src/sse, src/avx2, src/avx512"),("filter bounds clipped to the source extent",S),("row chunking of buffers by stride","src/dispatch_group_*.rs")],
 observe=["buffers placed against inaccessible guard pages","AddressSanitizer reports","checked-build assertions"])
p("C02","Every valid request succeeds, without panic, crash or hang",
 "Resizing any non-empty, well-formed source into any non-empty, well-formed destination returns success in bounded time, provided its temporaries fit in memory. It never panics, aborts, overflows an arithmetic operation, violates a language-level precondition or fails, even for one-pixel sides and extreme aspect or scale ratios.",
 ["inputs","configurations"],"every valid combination of format, size pair (including 1xN, Nx1 and extreme ratios), depth 1..16, filter, thread count, strategy and CPU feature set, in release and in overflow-checked builds",
 "Tests use a handful of moderate sizes and three filters; degenerate sides, extreme ratios and most filters never run, and the tests never look at undefined behaviour.",
 [S,"src/filter_weights.rs","src/dispatch_group_u8.rs","src/dispatch_group_u16.rs","src/dispatch_group_f32.rs"],
 [("weight generation and clipping of kernel bounds",S),("fixed-point conversion of weights","src/filter_weights.rs"),("row handlers with unchecked indexing","src/handler_provider.rs")],
 observe=["return values","panics and signals","overflow and unchecked-precondition traps of a checked build","undefined-behaviour interpreter (Miri)"])
p("C03","Invalid requests are refused with the right error and change nothing",
 "A request with an empty image, a buffer whose length does not match its dimensions, a row stride shorter than the row, a bit depth outside 1..16, or dimensions whose size computation overflows is refused with the corresponding error. It neither panics nor accepts the image, and a refused resize leaves the destination buffer exactly as it was.",
 ["inputs"],"all constructors and all resize entry points x every kind of malformed source or destination, including sizes whose products wrap around the machine word",
 "No existing test exercises an error path at all, and overflow of size products needs inputs near the word size.",
 [I,S,"src/support.rs","src/resize_ar30.rs","src/pic_scale_error.rs"],
 [("length and stride validation",I),("size overflow check","src/support.rs"),("validation of packed 10-bit images","src/resize_ar30.rs")],
 observe=["returned error and its code","destination buffer before and after"])
p("C04","The result does not depend on thread settings, schedule or repetition",
 "For the same images, filter, strategy and CPU, the destination is bit-for-bit the same whether the work is done on one thread, any fixed number of threads or the adaptive number, and however those threads are scheduled. Repeating a call, or having made other calls before it, changes nothing.",
 ["schedules","configurations","histories"],"every format and size x Single, Fixed(0..), Adaptive x schedules x prior calls",
 "The tests use one default threading policy and never compare policies; chunking mistakes show only for particular row counts.",
 ["src/threading_policy.rs","src/dispatch_group_u8.rs","src/dispatch_group_u16.rs","src/dispatch_group_f32.rs","src/dispatch_group_f16.rs","src/dispatch_group_ar30.rs","src/nearest_sampler.rs","src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/alpha_handle_f32.rs"],
 [("per-row and four-row parallel chunking with sequential twins","src/dispatch_group_*.rs"),("thread pool construction per call","src/threading_policy.rs")],
 observe=["destination bytes under every policy"])
p("C05","Concurrent use is free of data races and interference",
 "One scaler and one source image may be used by many threads at the same time, each writing its own destination, and every call also splits its own work over worker threads; no two threads ever access the same memory without synchronisation when one of them writes. Every concurrent call yields exactly the result it yields alone.",
 ["schedules"],"all interleavings of several concurrent resizes of all formats, and of the workers inside each of them",
 "Tests are single-caller and a data race need not change an output on the machine that runs them.",
 ["src/dispatch_group_u8.rs","src/dispatch_group_u16.rs","src/dispatch_group_f32.rs","src/nearest_sampler.rs","src/alpha_handle_u8.rs","src/threading_policy.rs","src/alpha_check.rs"],
 [("disjoint mutable row chunks handed to workers","src/dispatch_group_*.rs"),("no shared mutable state between calls",S)],
 observe=["ThreadSanitizer reports","outputs of concurrent calls against solo calls"])
p("C06","8-bit resizing computes the chosen filter's weighted average",
 "Each destination sample of an 8-bit image of one to four channels equals, to within the rounding of the two fixed-point passes, the weighted average of the source samples under the chosen filter centred at the destination sample's position, with the weights normalised to one. This holds for every filter, every size pair, both workload strategies and every CPU, and the rounding is not biased up or down.",
 ["inputs","configurations"],"every 8-bit image, channel count, filter, size pair, strategy and reported CPU feature set",
 "The tests resize constant-colour images with one or two filters and allow a wide tolerance, so wrong weights, wrong taps or a wrong tail column pass.",
 [S,"src/sampler.rs","src/math","src/filter_weights.rs","src/dispatch_group_u8.rs","src/fixed_point_horizontal.rs","src/fixed_point_vertical.rs","src/sse","src/avx2","src/avx512"],
 [("filter table and kernels","src/sampler.rs, src/math"),("weight generation",S),("fixed-point row kernels","src/sse, src/avx2, src/avx512")],
 observe=["destination samples against an independent double-precision model"])
p("C07","High-bit-depth resizing computes the chosen filter's weighted average",
 "For images of 16-bit samples with a declared depth of 1 to 16 bits and one to four channels, each destination sample equals the normalised weighted average of source samples under the chosen filter to within the rounding of the two passes, and never exceeds the largest value of the declared depth. This holds for every depth, filter, size pair and CPU.",
 ["inputs","configurations"],"every image, depth 1..16, channel count, filter, size pair and CPU feature set",
 "Tests cover depth 10 and 16 on constant images; the other depths and the switch between integer and floating arithmetic are not run.",
 [S,"src/dispatch_group_u16.rs","src/handler_provider.rs","src/sse","src/avx2","src/avx512","src/fixed_point_vertical.rs","src/floating_point_vertical.rs"],
 [("choice of fixed or floating arithmetic by depth","src/dispatch_group_u16.rs"),("row kernels clamping to the depth's maximum","src/sse/vertical_u16.rs, src/avx2, src/avx512")],
 observe=["destination samples against an independent double-precision model"])
p("C08","Floating-point resizing computes the filter's weighted average linearly",
 "For 32-bit and 16-bit floating images of one to four channels each destination sample equals, to within that format's rounding, the normalised weighted average of the source samples under the chosen filter; values are not clamped, and negative values and values above one pass through. This holds for every filter, size pair and CPU.",
 ["inputs","configurations"],"every finite image, channel count, filter, size pair and CPU feature set, f32 and f16",
 "No existing test resizes a floating-point image at all.",
 [S,"src/scaler_f16.rs","src/dispatch_group_f32.rs","src/dispatch_group_f16.rs","src/f16.rs","src/floating_point_horizontal.rs","src/floating_point_vertical.rs","src/sse","src/avx2"],
 [("floating row kernels","src/sse/*_f32.rs, src/avx2/*_f32.rs, src/*/*_f16.rs"),("half-float conversions","src/f16.rs")],
 observe=["destination samples against an independent double-precision model"])
p("C09","The result does not depend on which CPU features are present",
 "For every request the results computed with any set of CPU features a real processor reports, from plain baseline to the widest vector units, agree for integer formats to within one least significant step per pass (as amplified by the filter), and within rounding for floating formats. The column, row or image size at which a vector loop ends makes no difference.",
 ["configurations","inputs"],"every realistic x86 feature set x every format, size, filter and strategy",
 "Tests run with whatever the build machine's CPU reports, so every narrower code path is never executed.",
 [I,"src/rgba_u8.rs","src/rgb_u8.rs","src/plane_u8.rs","src/cbcr8.rs","src/rgba_f32.rs","src/handler_provider.rs","src/dispatch_group_ar30.rs","src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/sse","src/avx2","src/avx512"],
 [("run-time feature detection choosing kernels","src/*_u8.rs, src/*_f32.rs, src/handler_provider.rs"),("scalar, SSE4.1, AVX2 and AVX-512 twins of each kernel","src/sse, src/avx2, src/avx512")],
 observe=["outputs of the same request with different reported feature sets"])
p("C10","Only instructions the CPU reports are ever executed",
 "While it serves any request the library executes only instructions belonging to instruction-set extensions that the processor reports as available; it never relies on an extension because another one is present.",
 ["configurations","inputs"],"every realistic x86 feature set x every format, size, strategy and filter class",
 "On a processor that has every extension, executing an unreported one is harmless and invisible; only the narrower machines of users crash.",
 ["src/rgba_u8.rs","src/rgb_u8.rs","src/plane_u8.rs","src/cbcr8.rs","src/plane_f32.rs","src/handler_provider.rs","src/alpha_handle_u8.rs","src/alpha_handle_u16.rs",I,"src/avx2/utils.rs"],
 [("feature checks guarding each kernel","src/*_u8.rs, src/*_f32.rs, src/handler_provider.rs, "+I)],
 observe=["the executed instruction stream, one step at a time, against the reported feature set"])
p("C11","Uniform images stay exactly uniform",
 "Resizing an image whose pixels all have the same value gives an image whose pixels all have that same value, exactly for integer formats and to within rounding for floating formats, at every position including borders. This holds for every filter, scale ratio (including very large reductions), format, depth, CPU and strategy. (Sums of hundreds of taps in single precision may miss the last step of samples deeper than 12 bits.)",
 ["inputs","configurations"],"every value x format x depth x filter x size pair x strategy x CPU feature set",
 "Tests use constants with two filters and a tolerance so wide that visibly darkened borders pass.",
 [S,"src/filter_weights.rs","src/support.rs","src/saturate_narrow.rs"],
 [("weights normalised to sum one",S),("fixed-point quantisation of weights","src/filter_weights.rs")],
 observe=["every destination sample"])
p("C12","Output stays in range; averaging filters never overshoot",
 "Integer results always lie between zero and the largest value of the declared depth, saturating instead of wrapping whatever the input contrast. With filters that only average (no negative lobes) every result of any format lies, up to rounding, between the smallest and largest source sample the filter covers.",
 ["inputs","configurations"],"every image, particularly extreme-contrast ones, x format x depth x filter x size pair x CPU",
 "Constant or smooth test images never overshoot, so saturation code and wrap-around are never exercised.",
 ["src/saturate_narrow.rs","src/fixed_point_vertical.rs","src/fixed_point_horizontal.rs","src/sse","src/avx2","src/avx512"],
 [("saturating narrowing","src/saturate_narrow.rs, SIMD packs"),("clamp to depth maximum","src/*/vertical_u16*.rs, src/*/rgba_u16*.rs")],
 observe=["destination samples against range and local source extrema"])
p("C13","Resizing is centred: mirrored input gives the mirrored output",
 "For every filter that is not of the elliptical-average family, resizing a horizontally or vertically mirrored image gives the mirror of resizing the original, and resizing the transposed image to transposed dimensions gives the transpose, up to rounding. The picture is therefore never shifted.",
 ["inputs","configurations"],"every image, format, symmetric filter and size pair",
 "A half-pixel shift or lopsided kernel still gives plausible pictures, and tests on constants cannot see it.",
 [S,"src/sampler.rs","src/math"],
 [("kernel window placement around the sample centre",S)],
 observe=["pairs of outputs for mirrored and transposed inputs"])
p("C14","Row padding is ignored in the source and preserved in the destination",
 "When rows are stored with a stride longer than the row, the result in the image area equals that of the same densely stored image, the padding of the source never influences it, and the padding of the destination is never written. The previous contents of the destination never influence the result, and every pixel of it is written.",
 ["inputs","configurations"],"every format and entry point, all source and destination strides, arbitrary padding and previous contents",
 "No existing test uses a stride different from the row length.",
 [I,S,"src/dispatch_group_u8.rs","src/dispatch_group_u16.rs","src/dispatch_group_f32.rs","src/nearest_sampler.rs","src/resize_ar30.rs","src/colors"],
 [("row chunks taken by stride, limited to the row length","src/dispatch_group_*.rs"),("row-wise copy",I)],
 observe=["padding canaries, dense against strided outputs, outputs with different previous contents"])
p("C15","Resizing to the same size copies the image exactly",
 "When source and destination have the same width and height, the destination's pixels are exactly the source's pixels for every format, filter, alpha option and stride combination of the general-purpose scaler. No sample is rounded, clamped, filtered or alpha-adjusted.",
 ["inputs","configurations"],"every image, format, filter, depth, alpha option and stride pair with equal dimensions",
 "No existing test resizes to equal dimensions.",
 [S,I,"src/resize_ar30.rs"],
 [("equal-size shortcut copying rows",S)],
 observe=["destination pixels against source pixels"])
p("C16","Nearest-neighbour picks the nearest source pixel, unchanged",
 "With the nearest-neighbour filter every destination pixel is a bit-exact copy of one source pixel: the one whose cell contains the destination pixel's position scaled by the size ratio, independently in x and y (on the exact border of two cells, either). This holds for every format including packed 10-bit, stride and thread setting.",
 ["inputs","configurations","schedules"],"every image, format, size pair, stride and thread policy",
 "One test runs nearest on a constant image, for which any pixel is the right one.",
 ["src/nearest_sampler.rs",S,"src/resize_ar30.rs"],
 [("index computation by fixed ratio","src/nearest_sampler.rs")],
 observe=["destination pixels against source pixels, each tagged by position"])
p("C17","Alpha-aware resizing is premultiply, resample, unpremultiply",
 "With premultiplication requested, the result of resizing an RGBA image equals, within rounding, multiplying colour by alpha, resampling all channels, and dividing colour by the resampled alpha with saturation at the format's maximum, for every alpha pattern including constant partial alpha. The alpha channel itself equals what resampling without premultiplication gives.",
 ["inputs","configurations"],"every RGBA image x u8, u16 of every depth, f32, f16 x size pair x filter x CPU x thread policy",
 "One test premultiplies a constant image; non-constant alpha, tails and depths are not run.",
 [S,"src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/alpha_handle_f32.rs","src/alpha_handle_f16.rs","src/alpha_check.rs","src/sse/alpha_u8.rs","src/avx2/alpha_u8.rs","src/avx512/alpha_u8.rs"],
 [("detection whether premultiplication is needed","src/alpha_check.rs"),("premultiply and unpremultiply row kernels","src/alpha_handle_*.rs, src/*/alpha_*.rs")],
 observe=["destination RGBA against a double-precision model"])
p("C18","Invisible colour never leaks and opaque images are unaffected by alpha",
 "With premultiplication requested, changing the colour of fully transparent source pixels changes nothing in the destination, unless the whole image has one and the same alpha. A fully opaque image gives exactly the same result whether or not premultiplication is requested.",
 ["inputs","configurations"],"every RGBA image with transparent pixels or full opacity x format x depth x filter x size pair x CPU",
 "It is a two-run property over hidden inputs; tests compare single runs.",
 [S,"src/alpha_check.rs","src/alpha_handle_u8.rs","src/alpha_handle_u16.rs","src/alpha_handle_f32.rs"],
 [("premultiplication zeroes transparent colour","src/alpha_handle_*.rs"),("opaque images skip premultiplication","src/alpha_check.rs")],
 observe=["pairs of outputs for images that differ only in invisible colour, and with the option on and off"])
p("C19","Channels never mix, and all channel layouts agree",
 "Without premultiplication each destination channel depends only on the same source channel, and resizing a channel inside a two-, three- or four-channel image gives the same samples as resizing it alone as a plane, to within one step of the format per pass. Permuting channels permutes the result.",
 ["inputs","configurations"],"every image x u8, u16, f32, f16 x channel layouts x filters x sizes x CPU",
 "Tests check each layout separately on constants and never relate layouts to each other.",
 ["src/rgb_u8.rs","src/rgba_u8.rs","src/cbcr8.rs","src/plane_u8.rs","src/handler_provider.rs","src/sse","src/avx2","src/avx512"],
 [("per-layout horizontal kernels with lane shuffles","src/sse, src/avx2, src/avx512")],
 observe=["outputs per channel against plane outputs; outputs when other channels are changed"])
p("C20","Packed 10-bit images resize like their unpacked channels",
 "Resizing a packed 10-10-10-2 image, in either component order and either byte order, gives in each 10-bit colour field what resampling that field as a separate 10-bit channel gives, within one step, and an opaque alpha field. Strides are honoured for every size pair and filter, and the byte order never changes the decoded values.",
 ["inputs","configurations"],"every packed image x AR30/RA30 x host/network byte order x strides x sizes x filters x CPU x threads",
 "No existing test touches packed 10-bit images.",
 ["src/resize_ar30.rs","src/dispatch_group_ar30.rs","src/ar30.rs","src/fixed_point_horizontal_ar30.rs","src/fixed_point_vertical_ar30.rs","src/sse/vertical_ar30.rs","src/sse/horizontal_ar30.rs","src/avx2"],
 [("unpack, filter and repack of packed pixels","src/ar30.rs, src/*_ar30.rs")],
 observe=["decoded fields against separately resized 10-bit channels"])
p("C21","Colour-managed scalers resample in their stated colour space",
 "Each scaler that works in a perceptual or linear space gives, within rounding, the result of converting every pixel to that space with the configured transfer function, resampling there with the chosen filter and converting back; alpha is resampled as stored and strides are honoured. The conversions themselves are those of the colour library, taken as given.",
 ["inputs","configurations"],"every image x every colour-space scaler x transfer function x filter x sizes x strides x RGB/RGBA",
 "No existing test runs any colour-space scaler.",
 ["src/colors"],
 [("convert, resize as float, convert back","src/colors/*.rs")],
 observe=["destination against composition of the conversion library with the general-purpose float scaler"])
p("C22","Image containers preserve pixels and geometry",
 "Building an image from a vector, a slice or an allocation, copying it, converting it to a read-only image or copying it into another image preserves every pixel, the dimensions, the bit depth and the meaning of the stride (zero meaning densely packed rows). A copy is independent of the original and never writes the destination's row padding.",
 ["inputs","histories"],"every element type, channel count, size and stride, and sequences of container operations",
 "No existing test exercises the containers beyond building dense ones.",
 [I],
 [("constructors, copies and conversions of image containers",I)],
 observe=["pixels, strides and padding of derived images against a model"])
p("C23","The generic resize interface equals the specific one",
 "Calling the format-generic resize interface with a filter and options gives bit-for-bit the image that the format-specific entry point gives with the same filter, strategy, thread and premultiplication settings, for every supported pixel format.",
 ["inputs","configurations"],"every supported format x options x images",
 "The generic interface is not called by any test.",
 [S,"src/lib.rs"],
 [("per-format generic implementations forwarding options",S)],
 observe=["outputs of both interfaces"])
p("C24","A resize leaves no resources behind and uses bounded memory",
 "After a resize returns, successfully or not, all memory it allocated and all threads it started are gone, however many calls are made (the process-wide worker pool that colorutils-rs starts for colour-space scalers excepted). While it runs it never holds more than a small multiple of the source, destination and intermediate image sizes plus filter tables, and never starts more threads than the policy states.",
 ["histories","configurations"],"long sequences of calls of all kinds, all thread policies, success and error paths",
 "Tests make one call each and do not look at allocations or threads.",
 [S,"src/threading_policy.rs"],
 [("pool built and dropped per call; temporaries owned by the call","src/threading_policy.rs, "+S)],
 observe=["allocator counters, peak bytes, thread list of the process"])
p("C25","Each destination pixel depends only on source pixels under the filter",
 "A source sample influences only the destination samples whose filter window covers it: changing source pixels outside that window, even to infinities or not-a-number in floating formats, changes no bit of the destination sample. Results never depend on uninitialised or unrelated memory.",
 ["inputs","configurations"],"every image x format x size pair x filter x CPU; arbitrary changes outside the window",
 "It is a two-run property; tests on constants cannot distinguish a kernel that reads (and multiplies by zero) neighbouring data.",
 [S,"src/filter_weights.rs","src/sse","src/avx2","src/avx512"],
 [("bounds of each kernel row limiting the taps read",S)],
 observe=["pairs of outputs for inputs that differ outside the window; MemorySanitizer reports"])
p("C26","Thread counts and filter numbers follow the documented mapping",
 "The number of worker threads is one for the single policy, the given number (at least one) for the fixed policy, and between one and the available parallelism for the adaptive policy, never decreasing with image area. Every documented filter number selects its own distinct filter and any other number selects bilinear; every error kind has its own stable code.",
 ["inputs","configurations"],"all policies x all image sizes including huge ones; all 32-bit filter numbers; all error kinds",
 "Not tested at all today; the quantifier is over all sizes and numbers.",
 ["src/threading_policy.rs","src/sampler.rs","src/pic_scale_error.rs"],
 [("thread count computation","src/threading_policy.rs"),("numeric filter mapping","src/sampler.rs"),("error codes","src/pic_scale_error.rs")],
 observe=["returned counts, observed threads, filters and codes"])
p("N01","ARM and WebAssembly back-ends agree with the reference",
 "On ARM (NEON) and WebAssembly targets every resize gives the same result, within rounding, as on x86.",
 ["configurations","inputs"],"every request on aarch64 and wasm32",
 "The tests run on one architecture.",
 ["src/neon","src/wasm32"],[("architecture-specific kernels","src/neon, src/wasm32")])
p("C27","The C interface gives the results of the Rust interface",
 "Every function of the C wrapper writes the pixels that the corresponding Rust call with the same arguments (filter number, size, depth, stride, threads, alpha option) produces, touches nothing but the destination's samples, and accepts pointers and strides that are not aligned to the sample size. Valid arguments are accepted and invalid ones are refused without touching the destination.",
 ["inputs","configurations"],"all functions of the C wrapper x all formats it offers x strides, sizes, filters, threads, alignments",
 "The wrapper crate has no tests; the property is over every pointer alignment and stride.",
 ["picscale/src"],
 [("extern functions building image containers from raw pointers","picscale/src")],
 observe=["status, pixels and bytes around both images, of the C call and of the Rust call"])
p("C28","Colour-space scalers keep the colours they do not mix",
 "Where nothing is mixed - nearest neighbour chooses one source pixel, or the whole picture has one colour - every colour-space scaler returns that colour, for every transfer function that maps black to black and white to white, to within the resolution of its conversion (one level, or one step of a table of 2048 steps of linear light, 256 for the approximate linear scaler), wherever in the row the pixel lies, and the alpha unchanged. What goes to the space therefore comes back with the same settings, on RGB and RGBA alike.",
 ["inputs","configurations"],"every colour x every colour-space scaler x transfer function x display luminance x filter x sizes x position in the row x RGB/RGBA x CPU feature set",
 "No existing test runs any colour-space scaler; 2^24 colours and every position against the vector width matter.",
 ["src/colors"],
 [("conversion to the space and back with the same transfer function, luminance and strides","src/colors/*.rs")],
 observe=["every destination pixel against the source pixel it must equal"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"N01":"This machine runs x86 only and no emulator for aarch64 or wasm32 is installed: executions of those back-ends cannot be observed here."}
T={
"C01":("guard-page allocator monitor, AddressSanitizer and checked-build runs over random requests","Every request runs with its images, and every temporary the library allocates, ending (or beginning) at an inaccessible page, on up to 14 CPU feature models; a fault, a changed canary or source byte, or a sanitizer report is a violation."),
"C02":("crash, panic, overflow and time monitor over random valid requests, release and checked builds","Each request runs in a watched worker process; a panic, signal, error or a minute without progress is a violation. The checked build traps arithmetic overflow and violated preconditions of unsafe functions."),
"C03":("monitor over malformed requests: verdict, error code, untouched destination","Constructors and resize entry points are driven with images broken in every listed way, including sizes that wrap around; expected error kinds come from the documented contract."),
"C04":("differential monitor across thread policies, processor affinity and repetition","Bit equality of outputs of the same request under several policies and affinities after other calls."),
"C05":("ThreadSanitizer and solo-versus-concurrent output monitor","Concurrent callers share one scaler and one source; std and the library are instrumented in the ThreadSanitizer build."),
"C06":("online comparison with an independent double-precision reference, with error intervals","Every sample of every result is compared with an interval computed from first principles (own kernels, own windows); tolerance is that of two fixed-point passes."),
"C07":("online comparison with an independent double-precision reference, with error intervals","As C06 for 16-bit samples of depth 1 to 16."),
"C08":("online comparison with an independent double-precision reference, with error intervals","As C06 for f32 and f16."),
"C09":("differential monitor across CPU feature models (CPUID masking)","The same request is executed under each model of CPU by hiding features from run-time detection; outputs must agree."),
"C10":("single-step trace of executed instructions checked online against the reported feature set","Each executed instruction of a request is decoded for its ISA extension and compared with what the modelled CPU reports."),
"C11":("oracle over outputs for uniform pictures","Every output sample must equal the colour."),
"C12":("range and overshoot oracle over outputs","Output must lie in the depth's range and, for averaging filters, between the extrema under the window."),
"C13":("metamorphic monitor: mirrored and transposed pictures","Outputs for mirrored or transposed inputs are compared."),
"C14":("metamorphic monitor: strides, padding canaries, previous contents","Dense and strided requests with different padding and previous contents must agree bit for bit; padding bytes are checked."),
"C15":("oracle: exact copy","All bytes of the image area compared."),
"C16":("oracle: index-tagged pictures","Each destination pixel identifies the source pixel it came from."),
"C17":("online comparison with a double-precision premultiply-resample-unpremultiply reference","Intervals as in C06 propagated through the division by alpha; alpha compared bit for bit."),
"C18":("two-run non-interference monitor","Outputs for inputs that differ in invisible colour only, and with the option on and off for opaque pictures."),
"C19":("metamorphic monitor across channel layouts","Channels compared with planes, other channels replaced, permutations."),
"C20":("online comparison of packed pictures with the reference on unpacked channels","Decoded fields against intervals; byte orders against each other."),
"C21":("online comparison with the composition of colour library and general scaler","Outputs compared with convert-resize-convert; alpha with the reference."),
"C22":("model-based monitor over histories of container operations","Random sequences of constructors, copies and conversions against a plain model."),
"C23":("differential monitor: generic against specific interface","Bit equality."),
"C24":("allocation and thread accounting monitor","Allocator and thread-start hooks of the harness count what every call takes and gives back; peaks are bounded."),
"C25":("two-run locality monitor and MemorySanitizer","Samples outside a pixel's window are replaced by extremes, infinities and NaN; the pixel must not change. MemorySanitizer build with instrumented std."),
"C26":("oracle over thread counts, filter numbers and error codes","Returned counts and mappings compared with the documented rules over random and boundary arguments."),
"C28":("round-trip oracle: colours that are not mixed must come back","Nearest-neighbour results of arbitrary colours and any filter's results of flat pictures are compared pixel by pixel with the source colour, within a bound computed from the transfer function and the table size."),
"C27":("differential monitor: C interface against Rust interface, with guard pages","The C wrapper's source is compiled into the harness and called through its extern functions; status and pixels are compared."),
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    t,n=T[i]
    checks.append(dict(property=i,quick_cmd="python3 check.py %s quick"%i,thorough_cmd="python3 check.py %s thorough"%i,technique=t,level="exploration",
      level_note=n+" Held on the executions counted in the evidence file, nothing more; trusts the toolchain and the harness in /verif/harness."))
m=dict(version=1,setup_cmd="python3 -c \"import subprocess; subprocess.run(['cargo','+nightly','fetch','--offline','--locked'],cwd='harness',check=False)\"",
  hooks=dict(guard="none: /repo carries no hooks; everything is observed from outside (allocator, guard pages, signals, CPUID masking, public interface)",enable="plain build of the path dependency",source_commits=[]),
  checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks))

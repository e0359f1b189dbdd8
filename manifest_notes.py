"""Technique and level note of each check in MANIFEST.json."""
REC = "executions of the real library, recorded and judged by TLC against the TLA+ specification"
DES = "Design model(s) explored exhaustively by TLC in every run, with broken variants it must reject. "
NOTES = {
 "C01": ("TLC-evaluated tables from the TLA+ decoder replayed exhaustively into the code; TLC trace validation of decoded blocks",
         "All 65,536 interpolated palettes x 8 indices and all endpoint pairs of both colour palettes are exhaustive, numeric facts by exhaustion (Numbers.tla); bit layout of whole blocks by random and structured " + REC + "."),
 "C02": ("TLA+ image model checked with TLC; TLC trace validation of decompressed images",
         DES + "Both builds (serial and rayon); image sizes (to 65,540 in one direction), contents and excess buffers sampled; every texel of each recorded image judged by TLC."),
 "C03": ("TLA+ image model checked with TLC; TLC trace validation of compressed images",
         DES + "Both builds (serial and rayon); image sizes (to 65,540 in one direction), contents, parameters and excess buffers sampled; every block of each recorded image judged by TLC."),
 "C04": ("TLA+ session model checked with TLC; TLC-generated schedules replayed into the code; TLC trace validation of repeated, concurrent and threaded calls",
         DES + "Groups of calls with equal arguments over both builds, thread counts, pools and histories, and duels of a few calls; interleavings inside a call are the operating system's and sampled."),
 "C05": ("TLA+ design models checked with TLC; TLC trace validation of encoded blocks", DES + "Blocks, images, masks and parameters sampled with bias to the threshold; " + REC + "."),
 "C06": ("TLC trace validation of encoded blocks", "Blocks and masks sampled so that every alpha occurs at every position; exact; " + REC + "."),
 "C07": ("TLA+ design model checked with TLC; TLC trace validation of encoded blocks", DES + "Blocks and masks sampled with bias to ramp ends; exact; " + REC + "."),
 "C08": ("TLA+ design model checked with TLC; TLC trace validation of groups of calls", DES + "Groups of calls that agree on the stored input; exact; " + REC + "."),
 "C09": ("TLC-evaluated optimum tables replayed exhaustively into the code; TLC trace validation",
         "All 2^24 colours in BC1 (opaque and with transparency) and BC2 against the optimum TLC computed; masks, algorithms and weights sampled."),
 "C10": ("TLA+ design models checked with TLC; TLC trace validation of encoded blocks", DES + "Colour pairs, arrangements and weights sampled, with bias to axes orthogonal to grey; " + REC + "."),
 "C11": ("TLA+ design models checked with TLC; TLC trace validation of encoded blocks", DES + "Blocks sampled with bias to exact lines and elongated clouds, mirror symmetry and near ties; tolerance written out in the specification; " + REC + "."),
 "C12": ("TLA+ design models checked with TLC; TLC trace validation of encoded blocks against least-squares systems TLC solves", DES + "Blocks sampled with bias to exact lines and elongated clouds, mirror symmetry and clusters; tolerance written out in the specification; " + REC + "."),
 "C13": ("TLA+ design model checked with TLC; TLC trace validation of pairs of calls", DES + "Blocks sampled; tolerance written out in the specification; " + REC + "."),
 "C14": ("TLA+ design model checked with TLC; TLC trace validation of encoded blocks", DES + "Blocks sampled with bias to equal endpoints; exact; " + REC + "."),
 "C15": ("TLC trace validation of groups of calls", "Groups of calls with scaled weights, default or irrelevant parameters; exact; " + REC + "."),
 "C16": ("TLA+ size arithmetic proved by Apalache over unbounded integers; TLA+ image model checked with TLC; TLC trace validation of sizes and of refused calls",
         "All sizes up to 260, sizes up to the address width by 16-bit limbs, all short buffer lengths of small images; both builds."),
 "C17": ("TLC trace validation of the command line program against an explicit TLA+ specification of DDS", "Images, options and paths sampled; every header byte and the payload judged; the program built with overflow checks and as released."),
 "C18": ("TLC trace validation of the command line program against an explicit TLA+ specification of DDS", "Supported DDS files sampled over formats, headers, junk in unused fields, sizes and trailing data; every texel judged; both builds of the program."),
 "C19": ("TLC trace validation of the command line program against an explicit TLA+ specification of PNG samples", "Every PNG colour type x depth x tRNS x interlacing, ancillary chunks, and grey/RGB JPEG; TLC derives the pixels from the PNG samples; both builds of the program."),
 "C20": ("TLA+ model of commands over a file system checked with TLC; TLC-generated histories replayed into the program and judged by TLC",
         "The phase model is exhaustive to depth 2 (quick) or 3; the program is run on histories TLC generates, the directory tree read before and after each command."),
 "C21": ("TLA+ design models checked with TLC; TLC trace validation of completion over sampled calls in both builds", DES + "Overflow checks on, watchdog for hangs; sizes, parameters, masks and buffers sampled."),
 "C22": ("TLA+ design models checked with TLC; TLC trace validation of encoded blocks and of rearranged blocks", DES + "Blocks with repeated colours and characteristic values, and their rearrangements, sampled; exact; " + REC + "."),
 "C23": ("TLA+ design models checked with TLC; TLC trace validation of pairs of calls", DES + "Blocks sampled; tolerance written out in the specification; " + REC + "."),
 "C24": ("TLA+ design model checked with TLC; TLC trace validation of blocks and images encoded twice", DES + "Blocks, images and masks sampled with bias to ramp ends; exact; " + REC + "."),
}

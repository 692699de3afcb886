"""interpolation helpers and printed statistics"""
T="src/stats.rs"; L="src/lib.rs"
def e(f,*p): return [(f,o,n) for o,n in p]
I64="    min + (max - min) * ratio\n"
IUS="    (min as f64 + (max - min) as f64 * ratio) as usize\n"
SHORT='''            write!(
                f,
                "Samples: {}; Min: {}; Max: {}; Average: {}; Variance: {}; STD: {}",
                self.count(),
                self.min(),
                self.max(),
                self.avg(),
                self.var(),
                self.std()
            )
'''
LONG='''            write!(f,
                "Samples: {}; Min: {:.p$}; Max: {:.p$}; Average: {:.p$}; Variance: {:.p$}; STD: {:.p$}",
                self.count(),
                self.min(),
                self.max(),
                self.avg(),
                self.var(),
                self.std())
'''
EMPTY="        self.snapshot().map(|s| s.fmt(f)).unwrap_or_else(|| Ok(()))\n"
BUGS=[
 ("int-swapped",["P44"],e(L,(I64,"    max - (max - min) * ratio\n"))),
 ("int-no-min",["P44"],e(L,(IUS,"    ((max - min) as f64 * ratio) as usize\n"))),
 ("int-min-twice",["P44"],e(L,(IUS,"    min + (min as f64 + (max - min) as f64 * ratio) as usize\n"))),
 ("int-round",["P44"],e(L,(IUS,"    (min as f64 + (max - min) as f64 * ratio).round() as usize\n"))),
 ("int-ceil",["P44"],e(L,(IUS,"    min + ((max - min) as f64 * ratio).ceil() as usize\n"))),
 ("int-max-ratio",["P44"],e(L,(I64,"    min + max * ratio\n"))),
 ("int-wide",["P44"],e(L,(I64,"    if min > max { min } else { min + (max - min) * ratio }\n"))),
 ("int-steps",["P44"],e(L,(IUS,"    min + (max - min) * (ratio * 100.0) as usize / 100\n"))),
 ("txt-std-var",["P45"],e(T,(SHORT,SHORT.replace("self.var()","self.std()")))),
 ("txt-order",["P45"],e(T,(LONG,LONG.replace("self.min()","self.XX()").replace("self.max()","self.min()").replace("self.XX()","self.max()")))),
 ("txt-precision-some",["P45"],e(T,(LONG,LONG.replace("Variance: {:.p$}","Variance: {}")))),
 ("txt-default-precision",["P45"],e(T,(SHORT,SHORT.replace("Average: {}","Average: {:.6}")))),
 ("txt-empty-text",["P45"],e(T,(EMPTY,"        self.snapshot().map(|s| s.fmt(f)).unwrap_or_else(|| f.write_str(\"Samples: 0\"))\n"))),
 ("txt-precision-plus",["P45"],e(T,("if let Some(p) = f.precision() {","if let Some(p) = f.precision().map(|p| p.max(1)) {"))),
 ("txt-precision-zero",["P45"],e(T,("if let Some(p) = f.precision() {","if let Some(p) = f.precision().filter(|&p| p != 0) {"))),
 ("txt-debug",["P45"],e(T,(SHORT,SHORT.replace("Min: {}","Min: {:?}")))),
 ("txt-one-sample",["P45"],e(T,(EMPTY,"        match self.count {\n            0 | 1 => Ok(()),\n            _ => self.snapshot().unwrap().fmt(f),\n        }\n"))),
 ("txt-width",["P45"],e(T,(SHORT,SHORT.replace("Max: {}","Max: {:8}")))),
]
BENIGN=[
 ("int-weights",[],e(L,(I64,"    (1.0 - ratio) * min + ratio * max\n"))),
 ("int-named",[],e(L,(I64,"    let width = max - min;\n    let step = width * ratio;\n    step + min\n"))),
 ("int-outside",[],e(L,(IUS,"    min + ((max - min) as f64 * ratio) as usize\n"))),
 ("int-via-f64",[],e(L,(IUS,"    interpolate_f64(min as f64, max as f64, ratio) as usize\n"))),
 ("int-floor",[],e(L,(IUS,"    (min as f64 + (max - min) as f64 * ratio).floor() as usize\n"))),
 ("int-trunc",[],e(L,(IUS,"    (min as f64 + (max - min) as f64 * ratio).trunc() as usize\n"))),
 ("int-clamped",[],e(L,(I64,"    let ratio = ratio.clamp(0.0, 1.0);\n    min + (max - min) * ratio\n"))),
 ("int-ends",[],e(L,(I64,"    if ratio == 0.0 {\n        return min;\n    }\n    min + (max - min) * ratio\n"))),
 ("int-equal",[],e(L,(IUS,"    if min == max {\n        return min;\n    }\n    (min as f64 + (max - min) as f64 * ratio) as usize\n"))),
 ("int-muladd",[],e(L,(I64,"    (max - min).mul_add(ratio, min)\n"))),
 ("int-debug-assert",[],e(L,(I64,"    debug_assert!(!ratio.is_nan());\n    min + (max - min) * ratio\n"))),
 ("txt-match",[],e(T,("        if let Some(p) = f.precision() {\n"+LONG+"        } else {\n"+SHORT+"        }\n","        match f.precision() {\n            None => {\n"+SHORT+"            }\n            Some(p) => {\n"+LONG+"            }\n        }\n"))),
 ("txt-locals",[],e(T,(SHORT,"            let (count, min, max) = (self.count(), self.min(), self.max());\n            let (avg, var, std) = (self.avg(), self.var(), self.std());\n            write!(f, \"Samples: {count}; Min: {min}; Max: {max}; Average: {avg}; Variance: {var}; STD: {std}\")\n"))),
 ("txt-two-writes",[],e(T,(SHORT,"            write!(f, \"Samples: {}; Min: {}; Max: {}\", self.count(), self.min(), self.max())?;\n            write!(f, \"; Average: {}; Variance: {}; STD: {}\", self.avg(), self.var(), self.std())\n"))),
 ("txt-write-str",[],e(T,(SHORT,"            f.write_str(\"Samples: \")?;\n            write!(f, \"{}; Min: {}; Max: {}; Average: {}; Variance: {}; STD: {}\", self.count(), self.min(), self.max(), self.avg(), self.var(), self.std())\n"))),
 ("txt-empty-match",[],e(T,(EMPTY,"        match self.snapshot() {\n            Some(stats) => stats.fmt(f),\n            None => Ok(()),\n        }\n"))),
 ("txt-empty-count",[],e(T,(EMPTY,"        if self.count == 0 {\n            return Ok(());\n        }\n        PopulatedStats { stats: *self }.fmt(f)\n"))),
 ("txt-write-fmt-stats",[],e(T,(EMPTY,"        if let Some(stats) = self.snapshot() {\n            std::fmt::Display::fmt(&stats, f)?;\n        }\n        Ok(())\n"))),
 ("txt-positional",[],e(T,(SHORT,SHORT.replace('"Samples: {}; Min: {}; Max: {}; Average: {}; Variance: {}; STD: {}",','"Samples: {0}; Min: {1}; Max: {2}; Average: {3}; Variance: {4}; STD: {5}",')))),
 ("txt-fields",[],e(T,(SHORT,SHORT.replace("self.min()","self.stats.min").replace("self.max()","self.stats.max")))),
 ("txt-swapped-positional",[],e(T,(SHORT,SHORT.replace('"Samples: {}; Min: {}; Max: {};','"Samples: {}; Min: {2}; Max: {1};').replace("Average: {}; Variance: {}; STD: {}","Average: {3}; Variance: {4}; STD: {5}").replace("self.min()","self.XX()").replace("self.max()","self.min()").replace("self.XX()","self.max()")))),
]

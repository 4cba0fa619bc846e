package check

// Assumptions are what a check takes for granted.
func Assumptions(id string) []string {
	a := append([]string(nil), common...)
	for _, k := range kinds[id] {
		a = append(a, kinded[k])
	}
	return a
}

var common = []string{
	"go/ssa translates the source faithfully; the engine's instruction semantics are those of the compiler (every job's paths are also run on the compiled code with a model of the path, and compared: native_disagreements)",
	"bounds are those of the job lines under coverage.jobs: lengths, n, k, tags, subsets, histories, goroutines; a job marked conc takes the draws that select tags and the order of subsets from a seeded generator and leaves secrets, shares, coefficients and keystream symbolic; values_fixed counts values taken that way",
	"draws from crypto/rand, math/rand and the keystream of the generators are symbolic bytes, independent of each other and of the secret",
	"a normal-form rule that its SMT certificate left undecided (normal_form_rules_undecided) is trusted to the term rewriter, whose laws are proved (field_laws_proved_by_smt)",
	"allocation never fails; integers are 64 bits wide",
}

var kinded = map[string]string{
	"aes":     "AES is an ideal block cipher: an uninterpreted permutation per key; the assembly of aesctrat computes CTR mode as its Go fallback does",
	"rs":      "the vendored reedsolomon code is executed like the repository's, its assembly through the same small interpreter",
	"sched":   "goroutines are preempted at synchronisation operations, at sends and receives and at marked points of the harness, at most the stated number of times; between those points a run is sequential, and races are looked for with vector clocks (--race)",
	"secrecy": "secrecy is decided for shares as functions of secret and draws: for every pair of secrets there is a bijection of the draws that leaves the k-1 shares as they are; timing and memory remnants are outside",
	"cpu":     "the amd64 assembly is executed from its source with the feature flags of the job; the arm64 assembly likewise, without hardware to compare with (replayed in the engine)",
	"ints":    "integer arguments are any 64-bit value where the job says so; loops that follow an accepted pair are cut at the stated number of reads",
	"pool":    "sync.Pool hands back what was put last, or something new when empty (the case in which buffers are shared most); the garbage collector does not empty it",
}

var kinds = map[string][]string{
	"C01": {"aes", "sched"}, "C02": {"aes", "sched"}, "C03": {"aes", "rs", "ints"}, "C04": {"aes", "secrecy", "sched"},
	"C05": {"aes", "pool"}, "C06": {"aes"}, "C07": {}, "C08": {"cpu"}, "C09": {"aes", "rs", "pool"}, "C10": {"aes"},
	"C11": {}, "C12": {"aes", "rs", "sched"}, "C13": {"aes", "rs"}, "C14": {"aes", "rs"}, "C15": {"aes", "rs", "secrecy"},
	"C16": {"aes", "rs", "pool"}, "C17": {"aes", "rs", "sched", "pool"}, "C18": {"sched", "pool"}, "C19": {"aes", "rs", "pool"},
}

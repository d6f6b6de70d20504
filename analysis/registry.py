"""Which checkers decide which property, with the least number of obligations confirmed on the reference tree."""
TRUST = ['rustc nightly MIR of the crate instantiated at T = f32 and T = f64, and its resolved callees',
         'the models of core/alloc/num_traits primitives in analysis/models.py',
         'heap allocation succeeds']
REAL = ['float arithmetic is exact real arithmetic (the property is stated up to rounding)', 'sample values are finite']
def c(parts, floor, rule, explain, assume=()): return {'parts': parts.split(), 'floor': floor * 6 // 10, 'rule': rule, 'explain': explain, 'assume': list(assume)}
VG = 'Gated value numbering over the MIR of both instances, calls inlined; '
CHECKS = {
 'C01': c('filters.check_C01', 214, 'affine relations (Karr) between the extracted state machine and the documented difference equation imply equal outputs; setters store their argument and frame everything else',
          VG + 'the product of the filter and a reference machine is closed under every operation and the output difference is identically zero on the affine hull.', REAL),
 'C02': c('filters.check_C02', 450, 'after set_coefficients the input/output relation has the cookbook transfer function, as an identity of rational functions in the parameters',
          VG + 'coefficients are normal forms in sin/cos/sqrt/pow of the parameters and compared with the cookbook.', REAL),
 'C03': c('filters.check_C03_scalar delays.check_C03_delay', 740, 'state after clear is observationally equal to the state after new with the same configuration',
          VG + 'affine-relation analysis of two copies (filters) and canonical-state comparison (delay lines).', REAL),
 'C04': c('filters.check_C04_scalar delays.check_C04_delay blocks.check_C04_block', 388, 'last_out equals the last value returned; zero after new, clear and RBJ retuning; framed by every other operation',
          VG + 'inductive over all operations from an arbitrary state.', REAL),
 'C05': c('blocks.check_C05', 458, 'the loop of process_block, summarised in lock step with process on a ghost state, writes the same sample, reaches the same state and visits each index once in order',
          VG + 'the loop invariant relating block state and ghost state is checked inductive.', REAL),
 'C06': c('filters.check_C06', 36, 'from new, output equals input (absolute value for detectors) on the affine hull of reachable states',
          VG + 'affine hull of states reachable from new by process.', REAL),
 'C07': c('filters.check_C07_scalar delays.check_C07_delay blocks.check_C07_block', 826, 'configuration cells and getters are framed by every non-configuration operation, and by setters of other settings',
          VG + 'frame conditions on the summary of every operation from an arbitrary state.', REAL),
 'C08': c('filters.check_C08', 144, 'two copies with different histories are related by equality after set_coefficients', VG + 'two-copy affine-relation (relational) analysis.', REAL),
 'C09': c('delays.check_C09', 180, 'process returns the content of the line get_delay samples behind the one just written, from every canonical state', VG + 'inferred ring invariants and case distinctions in a linear (Fourier-Motzkin) domain.', REAL),
 'C10': c('delays.check_C10', 230, 'process returns the linear interpolation at get_delay, weights functions of the delay alone', VG + 'inferred ring invariants and case distinctions in a linear (Fourier-Motzkin) domain.', REAL),
 'C11': c('delays.check_C11', 452, 'get_delay is the request clipped to 0..get_max_delay; get_max_delay only grows', VG + 'inferred ring invariants and case distinctions in a linear domain.', REAL),
 'C12': c('delays.check_C12', 392, 'every tap readable before set_max_delay reads the same afterwards, new taps read zero, pending outputs, delay and last output unchanged', VG + 'inferred ring invariants and case distinctions in a linear domain.', REAL),
 'C13': c('delays.check_C13', 456, 'tap_out/tap_in/add_to address the sample t+1 process calls back and frame all others', VG + 'inferred ring invariants and case distinctions in a linear domain.', REAL),
 'C14': c('delays.check_C14', 380, 'next_out leaves every observation unchanged and equals the next process output when the delay is at least one', VG + 'inferred ring invariants and case distinctions in a linear domain.', REAL),
 'C15': c('panics.check_C15', 400, 'every MIR assert, panicking call, slice index, unwrap and division reachable from a public operation is unreachable under its path condition',
          VG + 'IEEE comparisons (NaN-aware) and arbitrary rounding: float arithmetic is uninterpreted.', ['a line length fits in memory (at most 2^58 elements)']),
 'C16': c('filters.check_C16', 24, 'set_alpha stores exactly the arguments in [0,1) (NaN-aware regions) and process is the leak equation', VG + 'finite ordering-region analysis.', REAL),
 'C17': c('filters.check_C17', 184, 'the setter stores exp(-1/length) exactly on finite lengths above zero, frames the other gain', VG + 'finite ordering-region analysis with float classes.', REAL),
 'C18': c('filters.check_C18', 16, 'the envelope update equals the attack or release form in each ordering region', VG + 'finite ordering-region analysis.', REAL),
 'C19': c('windows.check_C19', 180, 'typestate machine of the iterator: Some while i < n, None for ever after, len and size_hint equal n - i', VG + 'state reached after i calls as a closed form, inductive.', REAL),
 'C20': c('windows.check_C20', 72, 'the yielded term is identical to the defining formula as a function of (i, n)', VG + 'normal forms of trigonometric terms.', REAL),
 'C21': c('windows.check_C21', 55, 'element-wise loop summary of apply_window multiplies index i by item i of the window of the slice length', VG + 'loop summaries.', REAL),
 'C22': c('filters.check_C22', 12, 'result in each float-class/ordering region equals the documented expression', VG + 'finite region analysis.', REAL),
 'C23': c('effects.check_C23', 210, 'no f32 arithmetic, narrowing or inexact f32 constant on any path of an f64 instance', 'Every cast, arithmetic operation and constant met on any path of every public operation at T = f64 is inspected with the value flowing through it.'),
 'C24': c('effects.check_C24', 363, 'no call-graph path from an audio-path operation reaches allocation, release, locking, blocking or I/O', 'Reachability in the call graph of resolved instances (callees of core, alloc, std and num_traits included; panicking calls excluded).'),
 'C25': c('effects.check_C25', 490, 'no mutable statics, no unsafe code, public types Send + Sync + without interior mutability and uniquely owning their state, no path to ambient state', 'Item, auto-trait and type-structure facts from the compiler, and call-graph reachability.'),
 'C27': c('scale.check_C27', 370, 'degree (unit) typing: sums and comparisons combine equal powers of the signal level, results have degree one, intermediates no more than the documented computation needs',
          VG + 'float operations on signal values are kept as written; degrees of state cells are inferred as a fixpoint.', ['samples, state and results stay in the normal range of the float type']),
}

M = 'contract-based deductive verification of the compiled function bodies (MIR extracted by rustc on every run), obligations discharged by z3; concrete replay search on the real code'
X = 'differential execution of the real code (bounded stand-in, not proved)'
CLAIMS = {
 'C01': (M, 'proof', 'escape, escape_str and every implementation behind the function pointer proved against one contract for strings of every length, content and address; loops cut with invariants'),
 'C02': (M, 'proof', 'every implementation proved against the same contract; the dispatcher proved to call one of them within its contract for every processor and every value the cached pointer can hold'),
 'C03': (M, 'proof', 'every read, write, pointer offset and aligned access of every escape path proved in bounds for all lengths and addresses'),
 'C04': (M, 'proof', 'every Buffer operation proved against its contract for all states'), 'C05': (M, 'proof', 'every Buffer operation proved against its ownership contract for all states'),
 'C06': (M, 'proof', 'the Render implementations of all 24 integer types proved for all values and buffer states, itoap through its contract'),
 'C07': (M, 'proof', 'both float Render implementations proved for all bit patterns and buffer states, ryu through its contract'),
 'C08': (M, 'proof', 'each scalar and wrapper Render implementation proved for all values and buffer states'),
 'C09': (M, 'proof', 'the escaping writer proved for every piece it can be given; core::fmt::write through its contract'),
 'C10': (M, 'proof', 'both iterator wrappers proved for an arbitrary iterator, item count and delimiter by loop invariants'),
 'C11': (M, 'proof', 'proved for arbitrary text'),
 'C12': (M, 'proof', 'text Render implementations proved to append exactly the escaped form of arbitrary text, escape through its contract'),
}
T = 'contract-based deductive verification of the expanded macro code (MIR of generated programs compared with their plain meaning for all run-time values, obligations discharged by z3), plus execution of the same programs'
for _c in ('C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C23'):
    CLAIMS[_c] = (T, 'translation_validation', 'each generated program is decided for all run-time values; the programs themselves are a sample')
CLAIMS['C22'] = ('bounded stand-in (the macro functions run inside rustc on syntax trees, out of the verifier\'s reach): generated invalid programs next to valid twins, decided by the compiler on the real macros', 'exploration', 'bounded, not proved')
NA = {}

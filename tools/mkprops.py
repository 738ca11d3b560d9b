#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so ids, titles and statements stay in one place)."""
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
IO='emp-tool/io/'; U='emp-tool/utils/'; C='emp-tool/circuits/'; G='emp-tool/gc/'; X='emp-tool/execution/'

p('C01','NetIO delivers every byte once, in order, and never stalls a covered receive',
 'Over one TCP connection between two NetIO endpoints, the bytes each side receives are exactly the bytes the other side sent, in order, for any sizes and any interleaving of send, receive, flush and sync by the two parties, however the network segments them. A receive whose bytes the peer has sent completes as soon as the peer has flushed, has itself started a receive or a sync, or has closed the channel, and a sync completes on both sides once both have called it. Closing a channel delivers everything sent before it.',
 ['schedules','histories','inputs'],'All two-party schedules of send/recv/flush/sync/close calls, all message sizes (0 up to several times the 1 MiB stream buffer), all TCP segmentations.',
 'netio.cpp ping-pongs a few fixed power-of-two sizes over an undisturbed loopback link; it fixes one interleaving and no odd sizes, segmentation or missing flush.',
 [IO+'net_io_channel.h',IO+'io_channel.h'],
 [('stdio buffering with a flush before the first receive after a send','NetIO::send_data_internal/recv_data_internal'),('sync handshake','NetIO::sync')],
 [('has_sent','unsent bytes may be sitting in the stream buffer','NetIO')],['public send_data/recv_data/flush/sync/destructor'])
p('C02','HighSpeedNetIO delivers every byte in order and puts nothing else on the wire',
 'For two HighSpeedNetIO endpoints that take turns (any number of sends of any sizes, then the same bytes received on the other side in any split, repeatedly, with flushes only where both sides flush), each side receives exactly the bytes the other sent and no receive stalls. Apart from those payload bytes the wire carries only constant padding, never other process memory. Destroying a channel flushes it and closes only its own descriptors.',
 ['schedules','histories','inputs'],'All turn-taking message schedules and message sizes around and above the 32 KiB chunk, all receive splits, either party as server.',
 'netio2.cpp exchanges equal fixed-size messages; it never varies the split, never inspects the wire and never crosses chunk boundaries unevenly.',
 [IO+'highspeed_net_io_channel.h'],[('fixed 32 KiB chunks with padding on turn change','SenderSubChannel::flush, RecverSubChannel::recv_data'),('turn state machine','HighSpeedNetIO::send_data_internal/recv_data_internal')],
 [('FSM','0 idle, 1 receiving, 2 sending','HighSpeedNetIO'),('ptr','position inside the current chunk','SubChannel')],['send_data/recv_data/flush and the raw TCP streams'])
p('C03','A truncated stream never yields invented data, success or a hang',
 'When the peer, file or memory buffer ends before a receive is satisfied, the receive does not return normally with invented bytes and does not loop forever: network and file channels terminate the process with a failure status after reporting an error, the memory channel reports an error and leaves destination and read position unchanged. Data that was completely transferred before the end is still delivered correctly. The end may come at any byte position.',
 ['fault_sequences','crash_points'],'Every position in the byte stream at which the peer disappears or the store ends, for every channel type and receive size.',
 'No test ever closes a channel early or reads past an end.',
 [IO+'net_io_channel.h',IO+'highspeed_net_io_channel.h',IO+'file_io_channel.h',IO+'mem_io_channel.h'],
 [('short-read detection','*::recv_data_internal, RecverSubChannel::recv_data_raw'),('bounds test','MemIO::recv_data_internal')])
p('C04','MemIO and FileIO are lossless FIFO stores',
 'Bytes written to a memory or file channel are read back exactly once and in order by later reads, for any mix of write and read sizes, any growth of the memory buffer and any initial capacity. Clearing a memory channel makes it equivalent to a new one, loading it from a file makes its contents exactly the requested file bytes, and rewinding a file channel restarts reading at its first byte. Writing and reading through one memory channel may interleave arbitrarily.',
 ['histories','inputs'],'All sequences of write/read/clear/load/reset with all sizes and capacities.',
 'Only used incidentally by circuit tests with one write-then-read pattern.',
 [IO+'mem_io_channel.h',IO+'file_io_channel.h'],[('geometric growth','MemIO::send_data_internal'),('stdio buffering','FileIO')],[('size/read_pos/cap','write end, read end, capacity','MemIO')])
p('C05','Typed transfers are address independent and bytes sent are counted exactly',
 'Bool vectors, block vectors and curve points sent through a channel arrive unchanged whatever the lengths and whatever the memory addresses of the sender\'s and receiver\'s buffers, mixed in any order with raw transfers on the same channel. Each call writes only the destination elements it was given. A channel\'s sent-byte counter grows by exactly the number of payload bytes handed to the transport.',
 ['inputs','histories'],'All lengths, buffer alignments on both sides, and sequences of typed calls.',
 'netio tests send one aligned length; alignment pairs that differ are never tried and the counter is never compared with the wire.',
 [IO+'io_channel.h'],[('bit packing of bools','IOChannel::send_bool/recv_bool'),('length-prefixed points','IOChannel::send_pt/recv_pt'),('counter','IOChannel::send_data')])
p('C06','Half-gates garbling evaluates every circuit correctly',
 'For every circuit of AND, XOR and NOT gates over any inputs, public constants included, the label the evaluator computes for each wire is the generator\'s zero label of that wire, plus the global offset exactly when the wire\'s plain value is 1. This holds at every gate of arbitrarily long runs and whatever the operand labels, including one wire used twice and wires derived from constants. Both parties process the same number of transcript bytes.',
 ['programs','inputs','histories'],'All circuits (gate lists of any length, any fan-in wiring), all inputs, all label/offset choices.',
 'halfgate/garble tests run a handful of fixed circuits with one random labelling each and compare only final outputs.',
 [G+'halfgate_gen.h',G+'halfgate_eva.h',U+'mitccrh.h'],[('half-gate equations','halfgates_garble/halfgates_eval'),('synchronised tweak stream','MITCCRH')],
 [('delta','global offset','HalfGateGen'),('mitccrh.gid/key_used','tweak position, equal on both sides','HalfGateGen/HalfGateEva')],['and_gate/xor_gate/not_gate/public_label'])
p('C07','Privacy-free garbling evaluates every circuit correctly',
 'For every circuit of AND, XOR and NOT gates over inputs whose zero labels have last bit 0, the privacy-free evaluator\'s label of each wire equals the generator\'s zero label, plus the offset exactly when the wire\'s value is 1, constants included. The last bit of an evaluator label equals the wire\'s plain value. Each AND gate moves exactly one 16-byte ciphertext.',
 ['programs','inputs','histories'],'All circuits, inputs and labellings.',
 'garble.cpp runs fixed circuits only and the privacy-free pair is barely exercised.',
 [G+'privacy_free_gen.h',G+'privacy_free_eva.h'],[('one-row garbling with LSB convention','privacy_free_garble/privacy_free_eval')],[('gid','gate index used as tweak','PrivacyFreeGen/PrivacyFreeEva')])
p('C08','Garbling hygiene: fresh tweaks, odd offset, free XOR/NOT, exact AND count',
 'The global offset always has its last bit set, also after it is replaced; XOR, NOT and constants never touch the channel, and every AND gate sends exactly 32 bytes (half gates) or 16 bytes (privacy-free). The ciphertexts of the k-th AND gate are those prescribed by the scheme under tweaks that no other AND gate of the run uses, at any position of an arbitrarily long run. The reported number of AND gates equals the number executed, on both sides, at every moment, and two generators never share offset, constants or hash start point.',
 ['histories','programs'],'All gate sequences and all positions in them, including positions far beyond any batch boundary and gate indices above 2^32.',
 'Tests check decoded outputs only; reused tweaks, an even offset or a wrong count still decode correctly.',
 [G+'halfgate_gen.h',G+'halfgate_eva.h',G+'privacy_free_gen.h',G+'privacy_free_eva.h',U+'mitccrh.h'],[('gid counter per tweak','MITCCRH::renew_ks; privacy-free gid'),('set_bit(delta,0)','set_delta')])
p('C09','Plain evaluation computes the circuit and folds only genuine constants',
 'Running any program over secret bits and public constants in the clear backend yields for every wire the value of the Boolean function the program denotes, whatever mix of constants and secrets its operands are. A wire reported as public is one whose value is the same for all secret inputs. The reported number of AND gates is the number of AND operations whose operands were both secret.',
 ['programs','inputs'],'All programs over AND/XOR/NOT/OR/select and all splits of inputs into secret and public.',
 'bit.cpp tries each gate once per operand kind; it does not compose constants, secrets and folding across long programs.',
 [X+'plain_circ.h',X+'plain_prot.h',C+'bit.hpp'],[('four-valued wire tags with constant folding','PlainCircExec::and_gate/xor_gate/not_gate')],[('tags P0 P1 S0 S1','public/secret value of a wire','PlainCircExec')])
p('C10','A recorded circuit file reproduces the recorded computation',
 'If a computation on the clear backend first feeds the first party\'s inputs, then the second party\'s, then computes and reveals outputs, the circuit file it records, loaded again, maps every assignment of the inputs (not only the recorded one) to the outputs the computation would have revealed. This includes outputs that are constants, inputs revealed directly, repeated outputs and unused inputs. The header counts (gates, wires, inputs, outputs) match the file\'s contents.',
 ['programs','inputs'],'All recorded programs and all re-run inputs.',
 'gen_circuit.cpp records two fixed circuits and replays one of them.',
 [X+'plain_circ.h',X+'plain_prot.h',C+'circuit_file.h'],[('gate-by-gate dump with back-patched header','PlainCircExec / setup_plain_prot / finalize_plain_prot')],[('gid/gates/n1/n2/n3/output_vec','wire and gate counters, output wires','PlainCircExec, PlainProt')])
p('C11','Circuit files and gate arrays are loaded and executed faithfully',
 'Loading a circuit in Bristol Format or Bristol Fashion, from a path, an open stream or a gate array, and computing it on any backend yields the function its gate list denotes (gates act in order on the current values of their wires), with inputs and outputs in file order, for any number of input and output values. Computing repeatedly with one object, with input and output memory of the caller\'s choice, or after reloading another file into the same object gives the same results as a fresh object. The stand-alone gate-array executor additionally supports OR.',
 ['inputs','programs','histories'],'All well-formed AND/XOR/INV circuit files and all sequences of load/compute on one object.',
 'Tests load two or three shipped files once each.',
 [C+'circuit_file.h'],[('parsers','BristolFormat::from_file, BristolFashion::from_file'),('executor','compute, execute_circuit')],[('wires','scratch wire values reused between runs','BristolFormat/BristolFashion')])
p('C12','The shipped circuit files compute the functions they are named after',
 'The AES-128/192/256 circuits, the older AES circuit, the SHA-1 and SHA-256 compression circuits and the 32-bit adder in the repository compute exactly those functions for every input, in the bit order their users rely on.',
 ['inputs'],'All inputs of each circuit.',
 'At most one known-answer vector per circuit is checked, and several files are not run at all.',
 [C+'files/bristol_fashion',C+'files/bristol_format',C+'circuit_file.h'],[('gate lists','circuit files')])
p('C13','Secret integers implement two\'s-complement ring and bitwise arithmetic',
 'For secret integers of every width, +, -, unary -, *, &, |, ^, ^= and absolute value compute the two\'s-complement result modulo 2^width for all operand values, whichever operands are public or secret and when operands are the same object. Operands are not modified. The results are the same on every backend.',
 ['inputs','configurations'],'All widths from 1, all operand values, all public/secret combinations.',
 'int.cpp samples random 32-bit pairs against native arithmetic; other widths, boundary values, aliasing and public operands are rarely touched.',
 [C+'integer.hpp',C+'bit.hpp'],[('ripple adder/subtractor, shift-add multiplier','add_full, sub_full, mul_full')])
p('C14','Secret division, remainder and modular exponentiation are exact',
 'For secret integers of every width and nonzero divisor, quotient and remainder are the truncated-division pair (a = q*b + r, |r| < |b|, r has the sign of a or is 0), reduced modulo 2^width in the single overflow case. Division by zero does not fail: the remainder is the dividend and the quotient is -1, or 1 for a negative dividend. Modular exponentiation returns base^e mod m for any exponent width whenever 0 <= base < m, m > 1 and (m-1)^2 fits in the positive range.',
 ['inputs','configurations'],'All widths, operand values and exponent widths in the stated range.',
 'int.cpp samples random positive-range operands at 32 bits and one modExp size.',
 [C+'integer.hpp'],[('restoring division on magnitudes with sign fix-up','div_full, condNeg, Integer::operator/ and %'),('square and multiply','Integer::modExp')])
p('C15','Comparison, selection, swap and shifts of secret integers are exact',
 'For every width, >=, >, <, <=, == and != agree with signed comparison of the operands\' values; select, If and swap pick or exchange exactly the named operands according to the secret condition. Shifts by a public amount move bits and fill with zeros for every amount, including amounts of at least the width. Shifts by a secret integer equal a shift by the value of its low bits up to the bits needed for the width and excluding its top bit.',
 ['inputs','configurations'],'All widths, values, conditions and shift amounts.',
 'int.cpp samples random 32-bit values, where equal operands, extreme signs, odd widths and oversize shifts practically never occur.',
 [C+'integer.hpp',C+'comparable.h',C+'swappable.h',C+'bit.hpp'],[('sign-extended subtraction','Integer::geq'),('barrel shifter','Integer::operator<</>>'),('mux','Bit::select, If, swap')])
p('C16','Construction, reveal, resize and bit counting preserve the value',
 'Constructing a secret integer from a machine integer (any width, sign-extended above 64 bits), from memory, or from bits and revealing it in any offered form returns the same bits, zero-filled above the width and truncated to the low bits. Resizing keeps the value with sign or zero extension as requested or keeps the low bits when shrinking; population count and leading-zero count are exact for every width and value. Indexing past the end denotes the top bit.',
 ['inputs','configurations'],'All widths, values, extension modes and reveal types.',
 'Only 32-bit round trips and a few counts are tested.',
 [C+'integer.hpp',U+'utils.hpp'],[('bit conversions','Integer constructors and reveal'),('adder tree','Integer::hamming_weight, leading_zeros')])
p('C17','The sorting network sorts any array and keeps payloads attached',
 'Sorting an array of secret keys of any length, ascending or descending (the direction itself may be secret), leaves the keys in the requested signed order as a permutation of the input. When a payload array is given, the multiset of (key, payload) pairs is unchanged and payloads are permuted exactly as their keys. Elements outside the given range are untouched.',
 ['inputs','configurations'],'All lengths including non-powers of two, all key and payload contents, both directions.',
 'No test runs sort in this repository\'s stable set with payloads, duplicates or all lengths.',
 [C+'number.h',C+'swappable.h'],[('bitonic network for arbitrary n','bitonic_sort, bitonic_merge, cmp_swap')])
p('C18','Secret float arithmetic equals IEEE-754 binary32 rounding',
 'For all normal, zero and infinite operands, secret float +, -, * and / return the correctly rounded (nearest-even) IEEE binary32 result whenever IEEE defines one; an exact result of magnitude below the smallest normal number becomes a zero of the same sign, and subnormal operands count as zero. sqr and sqrt return the correctly rounded result for every non-NaN operand where IEEE defines one. The result does not depend on which operands are public.',
 ['inputs'],'All 2^64 operand pairs (2^32 for unary operations) in the stated domain.',
 'float.cpp compares a few hundred random small-range values with a relative tolerance, so rounding, exponent extremes and special values are unconstrained.',
 [C+'float32_add.cpp',C+'float32_sub.cpp',C+'float32_mul.cpp',C+'float32_div.cpp',C+'float32_sq.cpp',C+'float32_sqrt.cpp'],[('embedded gate lists','float32_*.cpp run by execute_circuit')])
p('C19','Secret float comparison, sign, selection and conversion are exact',
 'equal, less_equal and less_than on secret floats agree with IEEE comparison for all normal, zero and infinite operands. Negation, absolute value, selection, bitwise ^ and & act exactly on the 32-bit encoding, and constructing then revealing a float returns the same bits (as an exactly widened double, or as text with six decimals). Operands are not modified.',
 ['inputs'],'All operand pairs in the stated domain and all conditions.',
 'float.cpp compares random values; equal magnitudes with opposite sign, zeros, infinities and neighbours are never hit.',
 [C+'float32.hpp',C+'float32_eq.cpp',C+'float32_leq.cpp',C+'float32_le.cpp'],[('comparator circuits and bit operations','float32.hpp')])
p('C20','Secret data never influences gates, files or communication',
 'For every operation on secret bits, integers and floats, and for sorting and circuit-file execution, the sequence of gates executed with their wiring, the recorded circuit file and the number of bytes exchanged are the same for all values of the secret operands. Only public parameters such as widths, lengths and public shift amounts may change them.',
 ['inputs','programs'],'All operations, all widths, all pairs of secret inputs.',
 'No test compares two executions with each other.',
 [C+'integer.hpp',C+'bit.hpp',C+'number.h',C+'float32.hpp',C+'circuit_file.h'],[('branch-free gate construction','all circuit operators')],[],['a recording gate backend'])
p('C21','Seeded PRG output is a fixed stream independent of how it is drawn',
 'A PRG with a given seed and id produces AES in counter mode under seed xor id: each draw of blocks, bytes, bits or words consumes whole counter blocks starting where the previous draw stopped and depends only on seed, id and that position, never on buffer addresses, batch sizes or earlier contents. Reseeding restarts the stream of the new seed with nothing left over. Draws write exactly the requested bytes, boolean draws are the low bits of a byte draw, and unseeded PRGs differ from each other, within a process and between processes.',
 ['histories','inputs'],'All sequences of draws of all kinds and sizes, all alignments, all stream positions including beyond 2^32 blocks.',
 'prg.cpp measures speed and compares two aligned fills; positions, alignments, mixed draws and reseeding are not compared with a reference.',
 [U+'prg.h',U+'aes.h'],[('AES counter mode','PRG::random_block'),('tail handling','PRG::random_data, random_data_unaligned')],[('counter','next counter block','PRG'),('ptr/buffer','words left from the last word batch','PRG')])
p('C22','AES primitives agree with FIPS-197 for all keys, blocks and batch shapes',
 'Key expansion and encryption of any number of blocks equal FIPS-197 AES-128 for every key and plaintext, block by block and in order; decryption inverts encryption. The multi-key schedule and parallel multi-key encryption equal the single-key routines for every supported number of keys and blocks per key. Permutation objects use the key they were given, re-keying included, and process every block of the array and no memory beyond it.',
 ['inputs','configurations'],'All keys, blocks, block counts and (keys x blocks) shapes.',
 'prp/aes_opt tests compare library routines with each other on one shape; batch remainders, decryption and re-keying are not covered by known answers.',
 [U+'aes.h',U+'aes_opt.h',U+'prp.h'],[('AES-NI rounds','AES_ecb_encrypt_blks, ParaEnc'),('key schedules','AES_set_encrypt_key, AES_opt_key_schedule')])
p('C23','Correlation-robust hashes match their definitions in single and batch form',
 'The three fixed-key hashes compute pi(x)^x, pi(s(x))^s(x) and pi(pi(x)^i)^pi(x), with s the linear orthomorphism and pi AES under the object\'s key, for every input, key and tweak. Batch and array forms equal element-wise application, with consecutive tweaks from the given start (64-bit, wrapping), for any length, with or without caller scratch, and when output and input are the same array. Input arrays that are not also outputs are unchanged.',
 ['inputs','configurations'],'All inputs, keys, tweaks, lengths and aliasing choices.',
 'The tests only time these hashes.',
 [U+'crh.h',U+'ccrh.h',U+'tccrh.h',U+'block.h'],[('hash definitions','CRH::H/Hn, CCRH::H/Hn, TCCRH::H/Hn, sigma')])
p('C24','The multi-instance hash never reuses a key and both parties stay in step',
 'A multi-instance hash draws its keys, the start point xor consecutive indices, in batches; each call uses the next keys of the batch in order, or starts a new batch when too few are left, and within a call key i hashes exactly its own group of inputs; no key is used by two calls until the key stream is explicitly repositioned. Two objects with the same start point given the same sequence of call shapes use the same keys, whatever mixture of shapes and whether a call hashes one or several inputs per key. A new start point or position takes effect at the next key renewal, and repositioning renews at once.',
 ['histories','inputs'],'All sequences of hash calls with all supported shapes, all start points and positions up to 2^64.',
 'mitccrh.cpp compares one aligned shape with itself.',
 [U+'mitccrh.h',U+'aes_opt.h'],[('batch of scheduled keys with used counter','MITCCRH::hash, renew_ks')],[('key_used','keys of the batch already consumed','MITCCRH'),('gid','next key index','MITCCRH')])
p('C25','Hash is SHA-256 of the concatenated input, however it is chunked and reused',
 'For every sequence of inputs of any sizes, the digest is SHA-256 of their concatenation in order; after a digest or reset the object behaves like a new one. The one-shot, block and key-derivation forms equal the same hash of their bytes, truncated where documented. Inputs are not modified and exactly 32 digest bytes are written.',
 ['histories','inputs'],'All splits of all messages, in particular around the internal buffer size, and all reuse histories.',
 'hash.cpp hashes one-shot inputs; only a few split patterns below the buffer size occur.',
 [U+'hash.h'],[('input buffering in front of OpenSSL','Hash::put, digest, reset')],[('buffer/size','bytes not yet absorbed','Hash')])
p('C26','GF(2^128) arithmetic is exact in every form',
 'Carry-less product, both reductions and both multiplications equal polynomial arithmetic over GF(2) modulo x^128+x^7+x^2+x+1 (for the reflected form in reflected bit order) for all operands. Inner products with and without reduction, powers-of-seed coefficients, packing and vector sums equal their definitions for every length, also when the result is written over an operand, and write only their outputs.',
 ['inputs','configurations'],'All field elements and vector lengths.',
 'f2k.cpp checks self-consistency on random data and a few lengths.',
 [U+'f2k.h'],[('pclmul with shift reduction','mul128, reduce, reduce_reflect'),('batched loops with remainders','uni_hash_coeff_gen, vector_self_xor, vector_inn_prdt_*')])
p('C27','Curve points form the P-256 group and big integers are exact',
 'Point addition, scalar multiplication, generator multiplication, inversion and equality behave as the cyclic group of the P-256 order: any expression over the generator depends only on its scalar modulo the order, including the identity and operands that are the same object. Points survive serialisation unchanged, bytes that encode no point of the curve are refused, copies are independent of the original and of its group object, and big-integer add, mul, mod, modular add/mul and byte conversion are exact for all sizes. Random scalars lie below the order.',
 ['programs','inputs'],'All expressions over points and scalars, all big-integer operands.',
 'ecc.cpp checks two identities on random scalars; identity, inverse, doubling and boundary scalars are never formed.',
 [U+'group.h',U+'group_openssl.h'],[('wrappers around OpenSSL EC and BN','Point, BigInt, Group')])
p('C28','ThreadPool runs every accepted task exactly once and shuts down cleanly',
 'Every task accepted by a pool of at least one worker is executed exactly once, on a worker, whatever the scheduling of producers, workers and destruction, and its future yields its return value or exception. Tasks start in the order they were accepted; workers never exceed the requested number. Destruction completes after all accepted tasks have run, never deadlocks, and tasks submitted from other threads or from running tasks are either run or rejected with an error once destruction has begun.',
 ['schedules'],'All interleavings of producers, workers, task bodies that enqueue, and the destructor.',
 'No stable test exercises shutdown races; a test run samples one schedule.',
 [U+'ThreadPool.h'],[('mutex, condition variable and stop flag','ThreadPool::enqueue, worker loop, ~ThreadPool')],[('tasks','accepted, unstarted tasks','ThreadPool'),('stop','destruction has begun','ThreadPool')])
p('C29','AES-CTR in and out of circuit agree with the standard for every chunk and length',
 'Encrypting with AES-128 in counter mode outside a circuit, in circuit with secret key and IV, in circuit with public IV, and with public key and IV all give the standard CTR keystream xor the input, for every key, IV, length (also partial blocks) and start chunk, with the 128-bit counter carrying across all its bits. In-place use, separate output and keystream-only use agree. Encrypting a message in consecutive pieces with the matching start chunks equals encrypting it at once.',
 ['inputs','histories'],'All keys, IVs (including near counter wrap), lengths, start chunks and call forms.',
 'aes_128_ctr.cpp checks random IVs, for which counter carries practically never happen, and a few lengths.',
 [C+'aes_128_ctr.h',C+'circuit_file.h'],[('counter arithmetic and byte reversal','aes_128_ctr, AES_128_CTR_Calculator')])
p('C30','Bit transposition and bool/byte/block conversions are exact permutations',
 'Transposing a bit matrix with any row and column counts that are multiples of 8 moves bit (r,c) to (c,r) for every bit and writes only the output matrix. Conversions between bools, machine integers, byte memory and blocks are mutually inverse in the documented bit order, forward and reversed, for every length, and touch only the named bits. Block helpers (bit set, low bit, xor of arrays, comparison) agree with their bitwise meaning.',
 ['inputs','configurations'],'All dimensions, lengths and contents.',
 'to_bool.cpp tests a few lengths forward only; transposition is not tested.',
 [U+'block.h',U+'utils.hpp'],[('SSE transpose with remainder paths','sse_trans'),('bit loops','to_bool, from_bool, bool_to_block, block_to_bool, int_to_bool, bool_to_int')])
p('C31','With threading enabled, each thread computes on its own backend',
 'When the library is built with threading support, the active backend is per thread: programs running concurrently in several threads, each with its own backend, compute exactly what they compute alone, whatever the interleaving. Installing or removing a backend in one thread is invisible to the others.',
 ['schedules','programs'],'All interleavings of per-thread programs at gate granularity.',
 'No test is built with threading enabled.',
 ['emp-tool/emp-tool.cpp',X+'circuit_execution.h',X+'protocol_execution.h'],[('thread-local backend pointers','CircuitExecution::circ_exec, ProtocolExecution::prot_exec')])
p('C32','SHA3-256 in and out of circuit is the standard hash for every input length',
 'The out-of-circuit hash and every form of the in-circuit calculator (single integer, array of integers, raw wire blocks; block or integer output) give SHA3-256 of the concatenated input bits, in byte order with the last partial byte completed with zeros, for every number of bits including zero and those around a multiple of the 1088-bit rate, every split into integers and every content, public or secret, on clear and garbled backends. A calculator can be used any number of times; earlier calls do not influence later ones, and only the 256 output bits are written.',
 ['inputs','histories'],'All bit lengths, contents, splits into integers and sequences of calls on one calculator.',
 'sha3_256.cpp hashes a few fixed byte strings whose lengths stay away from the boundaries of the rate.',
 [C+'sha3_256.h',C+'circuit_file.h'],[('bitwise absorption, padding and squeezing','SHA3_256_Calculator'),('EVP digest','sha3_256')])
p('C33','Secret float functions stay within stated error bounds of the real function',
 'For every finite x, the secret-float sin and cos return sin(pi x) and cos(pi x) with absolute error at most 2^-21; exp and exp2 return the exponential with relative error at most 2^-22 wherever the result is a normal number, +inf when it overflows, 0 when it is below the smallest normal number; ln and log2 of every positive normal x have error at most 2^-23 max(1,|result|), +0 and positive subnormals give -inf and +inf gives +inf. Infinite or NaN arguments of sin and cos give NaN; exp and exp2 of +inf and -inf are +inf and 0. The result depends only on the value, not on whether bits are public constants or which backend evaluates it.',
 ['inputs','configurations'],'All 2^32 argument patterns (negative or NaN logarithm arguments excluded), on clear and garbled backends.',
 'float.cpp samples random values in a narrow range with a loose tolerance.',
 [C+'float32.h',C+'float32_sin.cpp',C+'float32_cos.cpp',C+'float32_exp.cpp',C+'float32_exp2.cpp',C+'float32_ln.cpp',C+'float32_log2.cpp'],[('gate arrays for each function','float32 *_circuit tables'),('wrappers','Float::sin, Float::cos, Float::exp, Float::exp2, Float::ln, Float::log2')])
p('C34','Endpoints find each other in any start order and leave nothing behind',
 'A network channel (NetIO, HighSpeedNetIO) opened as server and one opened as client with the same port or ports are connected to each other and to nobody else, whichever side starts first, however many attempts the client makes meanwhile and by whichever address of the machine it names the server; a side never returns from its constructor before the other has started, and a client never connects to itself. Pairs on different ports opened at the same time do not disturb each other, and the same ports serve any number of sessions in a row. Once connected the ports accept no further connection, after the channels are destroyed the process holds the descriptors it held before, and a port number outside 0..65535 is rejected with an exception.',
 ['schedules','histories','configurations'],'All start orders and delays, all source ports the kernel may choose, all port numbers, sequences of sessions and closing orders, any number of pairs.',
 'The tests start both sides at about the same time on a fixed port, once per process.',
 ['emp-tool/io/net_io_channel.h','emp-tool/io/highspeed_net_io_channel.h'],[('listen, accept and retrying connect','NetIO::NetIO, HighSpeedNetIO::server_listen, HighSpeedNetIO::client_connect'),('closing of sockets and streams','~NetIO, ~HighSpeedNetIO, ~SubChannel')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

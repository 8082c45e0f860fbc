import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
ASM="monoasm_macro/src/asm.rs";INST="monoasm_macro/src/inst.rs";PARSE="monoasm_macro/src/parse.rs";LIB="monoasm/src/lib.rs";JIT="monoasm/src/jit_memory.rs";MLIB="monoasm_macro/src/lib.rs"
OBS=["bytes between the cursor before and after one monoasm! statement","monoasm! expansion accepted/refused"]
p("C01","General-purpose instructions encode exactly what was written",
 "Every supported integer, stack and control instruction (including every one the README lists), for every combination of register operands, emits exactly one valid x86-64 instruction that performs the named operation, at the named operand width, on exactly the registers written, in the written roles. This covers extended registers r8-r15 and the byte registers of rsp/rbp/rsi/rdi, which need prefixes.",
 ["inputs","programs"],"all mnemonics x all operand forms x all 16x16 register choices",
 "The tests execute about 20 instructions on one or two fixed register choices; prefix and opcode selection depends on every register pair, width and form.",
 [ASM,INST,JIT],[("per-instruction opcode selection",ASM+":compile, movq/movl/movw/movb, binary_op*, shift_op, push_pop, divide_op, count_op"),("REX and ModRM emission",JIT+":encode, rexw, rex_none, rex_none_byte, modrm, op_with_rd")],obs=OBS)
p("C02","Floating-point (SSE) instructions encode exactly what was written",
 "Every supported floating-point/SSE instruction, for every combination of xmm, general and memory operands, emits exactly one valid x86-64 instruction performing the named operation at the named width on exactly the registers and memory written, in the written roles. Mandatory prefixes, REX and opcode are placed so that the processor executes that instruction and no other.",
 ["inputs","programs"],"all SSE mnemonics x all operand forms x all 16x16 register choices x memory operand classes",
 "Tests use xmm0/xmm1 and one memory form for a handful of instructions.",
 [ASM,INST,JIT],[("SSE opcode and prefix selection",ASM+":compile (Movsd..Sqrtsd, UComIsd), movq, binary_sd_op"),("REX after mandatory prefix",JIT+":encode")],obs=OBS)
p("C03","Memory operands designate exactly the written effective address",
 "In every instruction that accepts a memory operand, [base], [base +/- disp], [base + index*scale +/- disp] and [rip +/- disp] address exactly base + index*scale + disp, for every base register, every legal index register, every scale 1/2/4/8 and every displacement that fits in 32 signed bits. The address does not depend on which instruction, operand width or other operand the memory operand is combined with.",
 ["inputs","programs"],"all instructions with a memory operand x 16 bases (+rip) x no index/15 indexes x 4 scales x displacement classes x other operand",
 "Tests touch two or three addressing forms; ModRM/SIB has special cases for rsp/r12, rbp/r13, rip, zero, 8-bit and 32-bit displacements that only matter in particular combinations.",
 [JIT,LIB,PARSE],[("addressing-mode special cases",JIT+":encode, modrm, sib, emit_disp_imm"),("displacement width choice",LIB+":Disp::from_disp, Rm::ind, Rm::rip_ind_from"),("memory operand parser",PARSE+":IndAddr::parse, Disp::parse, Disp::neg")],obs=OBS)
p("C04","Immediates are encoded exactly or refused",
 "For every instruction taking an immediate, and every 64-bit immediate value, the emitted instruction operates with exactly that value (after the sign extension the instruction performs to its operand width), or the value is refused with a panic; it is never silently truncated or altered. Every value representable as a signed integer of the instruction's immediate width is accepted (for roundpd's control byte, every unsigned byte).",
 ["inputs"],"all instructions with an immediate x operand forms x immediate values (all 8- and 16-bit values, all width boundaries, all powers of two +/-1)",
 "Tests use a few small constants; encodings switch at 8-, 16- and 32-bit signed boundaries and at the shift-by-one form.",
 [ASM,INST,JIT,LIB],[("immediate width choice and range refusal",ASM+":movq/movl/movw/movb, binary_op*, shift_op, Testq/Testb, Call(Disp), Roundpd"),("immediate emission",JIT+":emit_disp_imm, enc_digit_imm_byte")],obs=OBS)
p("C05","Every condition name tests the condition it names",
 "Every jcc, setcc and cmovcc spelling, including all aliases (c/nae/b, z/e/eq, pe/p, nge/lt, ...), branches, sets or moves exactly when the named condition holds, for every state of the carry, zero, sign, overflow and parity flags. setcc writes only the addressed byte and cmovcc keeps the destination when the condition is false (apart from the architectural zero-extension of the 32-bit form).",
 ["inputs","programs"],"all condition spellings x jcc/setcc/cmovcc(q,l,w) x all 32 flag states",
 "No test executes any conditional instruction.",
 [INST,ASM],[("condition table",INST+":Cond, Cond::from, Inst::parse (jcc/setcc/cmovcc)"),("condition to opcode",ASM+":Setcc, Cmovcc, Jcc")],obs=["executing the generated code under each flag state"])
p("C06","Every label reference resolves to the label's bound address",
 "After finalize, every jump, call, rip-relative operand and absolute-address constant that refers to a label that has been bound by then leads exactly to the address the label is bound to: backward or forward, within or across code pages and into constants or data, with or without an immediate following the displacement. A reference made before its label is bound stays pending across any number of finalize calls and is resolved by the first finalize after the binding.",
 ["histories","programs"],"all histories of label creation, binding, reference (every reference kind), page switch, constant/data declaration and finalize up to the depth bound",
 "Tests finalize once, use page 0 and bind labels in one order; correctness depends on the order of bind/reference/finalize/page switch.",
 [JIT,LIB],[("relocation bookkeeping",JIT+":save_reloc, save_absolute_reloc, fill_relocs"),("trailing-immediate compensation",LIB+":Imm::offset; "+JIT+":emit_disp_imm"),("label table",LIB+":Labels, LabelInfo, TargetType")],
 state=[dict(name="pending targets",meaning="reference slots not yet resolved, per label",where=LIB+":LabelInfo.target"),dict(name="loc",meaning="where a label is bound",where=LIB+":LabelInfo.loc")],obs=["displacement bytes after finalize compared with get_label_address"])
p("C07","Finalize and later assembly never disturb what was already emitted",
 "Once a byte of code, a constant or a data cell has been emitted, no later emission, label binding, constant declaration, page switch or finalize changes it, except that a reference's own displacement/address field is filled when its label is resolved. In particular running code from earlier finalize calls stays intact, already resolved references stay resolved to the same address, and run-time writes into data cells survive later finalize calls.",
 ["histories"],"all histories of emission, declaration, binding, page switch and repeated finalize up to the depth bound",
 "Tests finalize exactly once per memory.",
 [JIT],[("append-only cursor",JIT+":MemPage::emit*, align*"),("finalize block bookkeeping",JIT+":finalize, resolve_constants, resolve_data, fill_relocs")],
 state=[dict(name="counter",meaning="append cursor per page",where=JIT+":MemPage.counter"),dict(name="constants/data",meaning="pending declarations, drained by finalize",where=JIT+":MemPage")],obs=["full byte image before and after every operation"])
p("C08","Constants and data hold their declared values, aligned and disjoint",
 "After finalize, every declared constant and data item is found at its label holding its declared value (integers and floats bit-exact, byte blocks zeroed), at 16-byte alignment for 8-byte items and byte blocks, 4-byte for 4-byte items and 8-byte for absolute addresses and explicit align-8 markers. Constants lie in the code page that was selected when they were declared, data lies in the data region, and no item overlaps code or another item, whatever was declared before or after it and on whichever page.",
 ["histories","inputs"],"all sequences of constant/data declarations of all kinds, code emission, page switches and finalize up to the depth bound; boundary values and block sizes",
 "One test declares one data block; alignment and disjointness depend on the whole declaration history and on page selection.",
 [JIT],[("constant placement",JIT+":resolve_constants, resolve_data"),("alignment",JIT+":align4, align8, align16"),("declaration",JIT+":const_i64, const_i32, const_f64, constant, abs_address, const_align8, data_i64, data_i32, data")],obs=["memory at get_label_address of each item"])
p("C09","Patching a jump retargets exactly that jump",
 "Applying a jump patch to a finalized jmp whose own target was resolved (through its label or its address) makes that jump lead to the given bound label, wherever the two are (either code page, forward, backward, itself), and changes no byte other than that jump's displacement. A patch stays in force through later patches of other jumps, further assembly and further finalize calls, and re-patching the same jump makes the last patch win.",
 ["histories"],"all histories of jump emission on both pages, finalize, patch by label/address and further assembly up to the depth bound",
 "No test patches a jump.",
 [JIT,LIB],[("patch",JIT+":apply_jmp_patch, apply_jmp_patch_address"),("address arithmetic",LIB+":CodePtr Sub/Add")],obs=["displacement bytes of every jump and full image diff after each patch"])
p("C10","Emission never leaves its memory region",
 "No emission, constant, data block, alignment or relocation ever writes outside the region it belongs to: an emission that does not fit in the remaining space of its page panics instead, and neither the neighbouring page nor any memory beyond is modified. Everything up to and including the last byte of a page is usable, and a byte access by position beyond it panics.",
 ["histories","inputs"],"every emission operation x every distance 0..N bytes from the end of each page, and histories of such operations",
 "No test comes within 256 MB of a page end.",
 [JIT],[("bounds check on every byte store",JIT+":Index/IndexMut<Pos> for MemPage and JitMemory"),("cursor update after store",JIT+":emitb/emitw/emitl/emitq")],obs=["panic or success, and guard bytes of neighbouring regions"])
p("C11","Reported positions and addresses match what was emitted",
 "At every point of every history the reported cursor and current address equal the start of the selected page plus the bytes emitted or skipped on it so far, every address query on a bound label agrees with the others and with the place where it was bound, and asking for an unbound label's address panics. Differences, offsets and comparisons of addresses agree with byte distances, and reading a byte by position yields the byte at that place of the page. After finalize the code slice is exactly the code of the selected page up to the last finalize, the recorded code blocks of each page are contiguous and delimit each round's code and constants, and the containment query is true exactly for addresses inside the two code pages, whichever page is selected.",
 ["histories"],"all histories of emission, binding, declarations, page switch and finalize up to the depth bound; all boundary pointers for the containment query",
 "Tests only call a label's function pointer on page 0 after one finalize.",
 [JIT,LIB],[("cursor and block bookkeeping",JIT+":finalize, get_current, get_current_address, as_slice, code_block"),("label queries",JIT+":get_label_address, get_label_addr, get_label_addr2, get_label_u64"),("containment",JIT+":include")],obs=["return values of the query API after every operation"])
p("C12","Code pages are executable and writable, the data region is not executable",
 "For every memory created, every byte of both code pages is readable, writable and executable and every byte of the data region is readable and writable but not executable, from creation on and after any history of emission, page selection and finalize. Creation panics rather than return a memory without these protections. Selecting a page other than the two code pages is refused.",
 ["histories","configurations"],"every 4 KB page of the three regions x histories up to the depth bound x several memories alive at once",
 "Tests execute a few bytes at the start of page 0 and write a few data bytes.",
 [JIT],[("mprotect at creation",JIT+":JitMemory::new"),("page selection guard",JIT+":select_page")],obs=["/proc/self/maps and fetch/store probes at region boundaries"])
p("C13","Literal and run-time operand spellings are interchangeable",
 "Writing an operand literally (register name in any letter case, xmmN, integer literal) or as a Rust expression (R(e), xmm(e), (e)) of the same value, of whatever integer type up to 64 bits and with whatever operators for immediates and displacements, yields an instruction with the same meaning in every operand position of every instruction that offers both spellings (roundpd's control byte is a u8 expression).",
 ["inputs","programs"],"all instructions x operand positions x all 16 registers / xmm numbers and boundary literals, literal against run-time spelling; integer expression types and operators",
 "Tests mix the spellings at a few places but never compare them.",
 [PARSE,INST,ASM],[("register and xmm parsing",PARSE+":Reg::from_str, Register::parse_register, parse_xmm"),("literal/expression operands",INST+":RmOperand, RmiOperand, RiOperand, MovOperand, XmOperand, ImmOperand; "+PARSE+":Disp, Immediate, Dest")],obs=OBS)
p("C14","Operands that have no encoding are refused, never mis-encoded",
 "An instruction form that x86-64 or the macro does not provide (memory to memory, immediate destination, wrong register class, missing or extra operand, unknown mnemonic or condition, rip as a plain register or index, rsp as index, scale other than 1/2/4/8, register number above 15, shift count in a register other than cl, label displacement on a base other than rip or subtracted, displacement beyond 32 bits) is refused at compile time or by a run-time panic. It never silently emits a different instruction.",
 ["inputs","programs"],"all mnemonics x all tuples of operand kinds outside the supported forms, and all out-of-range operand values in the supported forms",
 "No test exercises a refused form.",
 [ASM,INST,PARSE,LIB,JIT],[("compile-time refusal",ASM+":panics in compile and helpers; "+INST+","+PARSE+":Parse impls"),("run-time refusal",JIT+":assert! in enc_*/sib; "+LIB+":Rm::ind, Rm::rip_ind_from, Reg::from; "+ASM+":try_from panics")],obs=["compiler verdict per invocation; panic or emitted bytes at run time"])
p("C15","Executing generated code computes what the assembly program means",
 "Running a finalized program through the function pointer obtained for its entry label produces exactly the register, memory, flag-dependent and return values that the written assembly program defines, including branches, loops, calls, stack use, constants and data cells, floating-point arithmetic, on either code page.",
 ["programs","inputs"],"all programs up to the length bound over an instruction alphabet, and all instructions x boundary operand values, executed natively against a reference interpreter",
 "The tests run about 20 straight-line programs with a single input each.",
 [ASM,JIT,LIB],[("whole pipeline",MLIB+":monoasm; "+JIT+":finalize, get_label_addr, get_label_addr2")],obs=["native execution result"])
p("C16","Each instruction's code is independent of its context",
 "A sequence of statements, in one or several monoasm! blocks, emits the concatenation in order of the encodings its statements have on their own; a statement's encoding does not depend on what was assembled before it, on the cursor position, on the selected page, or on the memory instance. The cursor advances by exactly the number of bytes emitted.",
 ["histories","programs"],"all ordered pairs of instruction forms, at several cursor positions, on both pages, in one block and in separate blocks",
 "Tests never compare encodings across contexts.",
 [MLIB,ASM,JIT],[("statement sequencing",MLIB+":monoasm"),("stateless encoder",JIT+":encode and enc_*")],obs=["emitted bytes per statement in each context"])
p("C17","JIT memories are independent of each other",
 "Any number of JIT memories may be used at the same time, in any interleaving of their operations, from one or several threads: each behaves (labels, code, constants, data, pages, addresses relative to its own base) exactly as if it were the only one, and their memory regions never overlap.",
 ["schedules","histories"],"all interleavings of two (and three) operation scripts on separate memories, from one thread and as all API-level schedules of separate threads",
 "Each test uses one memory in one process.",
 [JIT,LIB],[("per-instance state",JIT+":JitMemory {page, pages, labels}"),("separate allocation",JIT+":JitMemory::new")],obs=["per-instance image and addresses against the solo run"])
p("C18","The code dump shows exactly the last finalized block of the selected page",
 "After any history ending in finalize, the textual dump lists the disassembly of exactly the code bytes the selected page received between the two most recent finalize calls, all of them and nothing else (no constants, no earlier block, no other page). It leaves no temporary file behind and does not change the memory.",
 ["histories"],"all histories of emission, constants, page switch and finalize up to the depth bound",
 "Tests print the dump but never check it, and only for a single block on page 0.",
 [JIT],[("dump",JIT+":dump_code, as_slice, code_block")],obs=["bytes column of the dump against the bytes emitted"])
p("C19","Each page is an append-only stream fed only while selected",
 "Emission of bytes, words, double words, quad words, byte slices and dq literals appends their little-endian representation at the cursor of the selected page only; aligning moves that cursor to the next multiple of 4, 8, 16 or 4096 (not at all if already there); switching pages never moves any cursor, and emission through an explicitly named page goes to that page alone. Constants and data declared while a page is selected never move a cursor before finalize.",
 ["histories","inputs"],"all sequences of raw emission, alignment, page selection and declaration up to the depth bound; boundary values for each width",
 "No test uses raw emission, alignment or the second page.",
 [JIT,ASM],[("raw emission and alignment",JIT+":MemPage::emitb/emitw/emitl/emitq/align*, JitMemory::emit"),("page selection",JIT+":select_page, Deref for JitMemory"),("dq",ASM+":Inst::F64, Inst::I64")],obs=["cursor of both pages and bytes after every operation"])
p("C20","Operand expressions are evaluated once, in the caller's scope",
 "A Rust expression written as an operand (R(e), xmm(e), (e), displacement) sees the caller's variables, whatever they are called and whatever statements precede it in the block, and its side effects happen exactly once, when its statement is assembled, after those of the preceding statements. The memory argument is evaluated once per block.",
 ["programs","inputs"],"all instruction forms x expression positions x variable names (including every plausible macro-internal name) x preceding statements; side-effect counters in every expression position",
 "Tests use constant expressions without variables.",
 [ASM,MLIB,PARSE],[("generated code for operands",ASM+":quote! bodies introducing local bindings"),("macro entry",MLIB+":monoasm")],obs=["emitted operand values; side-effect counters"])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import jsonschema
for x in P: jsonschema.validate(x,s)
print(len(P))

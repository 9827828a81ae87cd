"""Machine code of the instructions of Ext.tla (assembled with llvm-mc).

Entries are bytes in hex, with the place of the ip-relative displacement and the end of its instruction
where there is one.  Rows that change flags end with the comparison the specification mentions.
"""

EXT = {
    "x64": {
        "cmove rax, rcx": ("480f44c1", None, None),
        "cmovne edi, edx": ("0f45fa", None, None),
        "mov al, 5": ("b005", None, None),
        "mov ah, 5": ("b405", None, None),
        "mov cx, 0x1234": ("66b93412", None, None),
        "mov dil, 3": ("40b703", None, None),
        "sete dl": ("0f94c2", None, None),
        "mul rcx": ("48f7e14885e4", None, None),
        "mul cl": ("f6e14885e4", None, None),
        "imul rdx, rcx, 100": ("486bd1644885e4", None, None),
        "imul eax, ecx, 0x12345": ("69c1452301004885e4", None, None),
        "cqo": ("4899", None, None),
        "cdq": ("99", None, None),
        "cwd": ("6699", None, None),
        "cdqe": ("4898", None, None),
        "cbw": ("6698", None, None),
        "shl rax, cl": ("48d3e04885e4", None, None),
        "sar edx, cl": ("d3fa4885e4", None, None),
        "rol rcx, 7": ("48c1c1074885e4", None, None),
        "shld rax, rdx, cl": ("480fa5d04885e4", None, None),
        "xadd rcx, rdx": ("480fc1d14885e4", None, None),
        "cmpxchg rcx, rdx": ("480fb1d14885e4", None, None),
        "bsf rax, rcx": ("480fbcc14885e4", None, None),
        "btc rax, rcx": ("480fbbc84885e4", None, None),
        "xchg rax, rcx": ("4891", None, None),
        "xchg rdx, rdi": ("4887d7", None, None),
        "xchg al, ah": ("86c4", None, None),
        "bswap ecx": ("0fc9", None, None),
        "lea rax, [rcx + rdx*4 + 5]": ("488d449105", None, None),
        "lea ax, [rcx + 1]": ("668d4101", None, None),
        "lea edx, [eax + 4]": ("678d5004", None, None),
        "movzx eax, cl": ("0fb6c1", None, None),
        "movzx ecx, ah": ("0fb6cc", None, None),
        "movsx rdx, dx": ("480fbfd2", None, None),
        "movsxd rcx, ecx": ("4863c9", None, None),
        "neg rdx": ("48f7da4885e4", None, None),
        "not rcx": ("48f7d1", None, None),
        "sub rax, rdx": ("4829d04885e4", None, None),
        "adc rax, rcx": ("4811c84885e4", None, None),
        "or edx, 0x10": ("83ca104885e4", None, None),
        "test rcx, rcx": ("4885c94885e4", None, None),
        "movq rax, xmm1": ("66480f7ec8", None, None),
        "movq xmm1, rcx": ("66480f6ec9", None, None),
        "cvttsd2si rdx, xmm0": ("f2480f2cd0", None, None),
        "cvtsi2sd xmm1, rcx": ("f2480f2ac9", None, None),
        "pextrw eax, xmm1, 2": ("660fc5c102", None, None),
        "pinsrw xmm1, ecx, 1": ("660fc4c901", None, None),
        "lahf": ("9f", None, None),
        "sahf": ("9e4885e4", None, None),
        "pushfq; pop rcx": ("9c59", None, None),
        "push rax; pop rcx": ("5059", None, None),
        "xor rax, [rsp]; xor rax, [rsp]": ("48330424483304244885e4", None, None),
        "enter 16, 0; leave": ("c8100000c9", None, None),
        "mov rax, fs:[0]": ("64488b042500000000", None, None),
        "mov ecx, 3; cld; rep stosb": ("b903000000fcf3aa", None, None),
        "mov ecx, 2; rep stosq": ("b902000000f348ab", None, None),
        "stosd": ("ab", None, None),
        "mov [rdi], rcx": ("48890f", None, None),
        "mov qword ptr [rdi + 0x100], 0x1234567": ("48c7870001000067452301", None, None),
        "mov rax, [rdi + 8]": ("488b4708", None, None),
        "movsx ecx, byte ptr [rdi + 3]": ("0fbe4f03", None, None),
        "push qword ptr [rdi]; pop rdx": ("ff375a", None, None),
        "lock xadd [rdi], rax": ("f0480fc1074885e4", None, None),
        "lock cmpxchg [rdi + 8], rdx": ("f0480fb157084885e4", None, None),
        "movups [rdi + 0x20], xmm1": ("0f114f20", None, None),
        "mov eax, 0; cpuid": ("b8000000000fa2", None, None),
        "data16 data16 data16 data16 data16 cs nop word ptr [rax + rax]": ("66666666662e660f1f0400", None, None),
        "mov rdx, 0x1122334455667788": ("48ba8877665544332211", None, None),
        "rdsspq rax": ("f3480f1ec8", None, None),
        "rdsspd ecx": ("f30f1ec9", None, None),
        "xor ecx, ecx; bsf rax, rcx": ("31c9480fbcc14885e4", None, None),
        "xor ecx, ecx; bsr edx, ecx": ("31c90fbdd14885e4", None, None),
        "xor ecx, ecx; rep stosb": ("31c9f3aa4885e4", None, None),
        "xor ecx, ecx; rep lodsq": ("31c9f348ad4885e4", None, None),
        "xor ecx, ecx; rep lodsd": ("31c9f3ad4885e4", None, None),
        "xor ecx, ecx; repne scasb": ("31c9f2ae4885e4", None, None),
        "xor ecx, ecx; lar eax, cx": ("31c90f02c14885e4", None, None),
        "xor ecx, ecx; lsl edx, cx": ("31c90f03d14885e4", None, None),
        "xor ecx, ecx; shl rax, cl": ("31c948d3e04885e4", None, None),
        "xor ecx, ecx; shld rax, rdx, cl": ("31c9480fa5d04885e4", None, None),
        "xor ecx, ecx; xgetbv": ("31c90f01d04885e4", None, None),
        "cmpxchg8b [rdi]": ("0fc70f4885e4", None, None),
        "lock cmpxchg16b [rdi]": ("f0480fc70f4885e4", None, None),
        "tzcnt rax, rcx": ("f3480fbcc14885e4", None, None),
        "loop 1f; 1:": ("e200", None, None),
        "call 1f; 1: pop rax": ("e80000000058", None, None),
        "call 1f; 1: add qword ptr [rsp], 3; pop rdx": ("e80000000048830424035a4885e4", None, None),
        "lea rax, [rip - 0x400]; lea rcx, [rip - 0x300]; sub rax, rcx": ("488d0500fcffff488d0d00fdffff4829c84885e4", None, None),
        "imul rax, [@]": ("480faf05000000004885e4", 4, 8),
        "imul rcx, [@], 0x1234567": ("48690d00000000674523014885e4", 3, 11),
        "imul rcx, [@], 7": ("486b0d00000000074885e4", 3, 8),
        "mul qword ptr [@]": ("48f725000000004885e4", 3, 7),
        "add byte ptr [@], 7": ("800500000000074885e4", 2, 7),
        "mov word ptr [@], 0x1234": ("66c705000000003412", 3, 9),
        "mov byte ptr [@], 0x12": ("c6050000000012", 2, 7),
        "test dword ptr [@], 0x11223344": ("f70500000000443322114885e4", 2, 10),
        "xor rdx, [@]": ("483315000000004885e4", 3, 7),
        "sub [@], cl": ("280d000000004885e4", 2, 6),
        "adc qword ptr [@], 0x1234567": ("48811500000000674523014885e4", 3, 11),
        "neg qword ptr [@]": ("48f71d000000004885e4", 3, 7),
        "lock inc dword ptr [@]": ("f0ff05000000004885e4", 3, 7),
        "lock cmpxchg [@], rcx": ("f0480fb10d000000004885e4", 5, 9),
        "lock xadd [@], rdx": ("f0480fc115000000004885e4", 5, 9),
        "cmpxchg [@], cl": ("0fb00d000000004885e4", 3, 7),
        "xadd [@], ax": ("660fc105000000004885e4", 4, 8),
        "bt dword ptr [@], 5": ("0fba2500000000054885e4", 3, 8),
        "bts qword ptr [@], 3": ("480fba2d00000000034885e4", 4, 9),
        "bsf rdx, [@]": ("480fbc15000000004885e4", 4, 8),
        "shl dword ptr [@], cl": ("d325000000004885e4", 2, 6),
        "sar word ptr [@], 3": ("66c13d00000000034885e4", 3, 8),
        "shld [@], rdx, cl": ("480fa515000000004885e4", 4, 8),
        "shrd [@], rdx, 5": ("480fac1500000000054885e4", 4, 9),
        "sete byte ptr [@]": ("0f940500000000", 3, 7),
        "cmovne rax, [@]": ("480f450500000000", 4, 8),
        "cmove ecx, [@]": ("0f440d00000000", 3, 7),
        "movzx dx, byte ptr [@]": ("660fb61500000000", 4, 8),
        "movsx eax, word ptr [@]": ("0fbf0500000000", 3, 7),
        "mov ah, [@]": ("8a2500000000", 2, 6),
        "mov [@], ah": ("882500000000", 2, 6),
        "mov [@], dil": ("40883d00000000", 3, 7),
        "xchg cl, [@]": ("860d00000000", 2, 6),
        "xchg edx, [@]": ("871500000000", 2, 6),
        "cvtsi2sd xmm1, qword ptr [@]": ("f2480f2a0d00000000", 5, 9),
        "cvttsd2si rax, [@]": ("f2480f2c0500000000", 5, 9),
        "addsd xmm1, [@]": ("f20f580d00000000", 4, 8),
        "sqrtss xmm1, [@]": ("f30f510d00000000", 4, 8),
        "pinsrw xmm1, [@], 3": ("660fc40d0000000003", 4, 9),
        "movhps xmm1, [@]": ("0f160d00000000", 3, 7),
        "movlps [@], xmm1": ("0f130d00000000", 3, 7),
        "movhps [@], xmm1": ("0f170d00000000", 3, 7),
        "movd xmm1, [@]": ("660f6e0d00000000", 4, 8),
        "movd [@], xmm1": ("660f7e0d00000000", 4, 8),
        "movq xmm1, qword ptr [@]": ("f30f7e0d00000000", 4, 8),
        "movups xmm1, [@]": ("0f100d00000000", 3, 7),
        "movdqu [@], xmm1": ("f30f7f0d00000000", 4, 8),
        "movss xmm1, [@]": ("f30f100d00000000", 4, 8),
        "movddup xmm1, [@]": ("f20f120d00000000", 4, 8),
        "pshufd xmm1, xmm1, 0x1b": ("660f70c91b", None, None),
        "ucomisd xmm1, [@]": ("660f2e0d000000004885e4", 4, 8),
        "movnti [@], rcx": ("480fc30d00000000", 4, 8),
        "prefetcht0 [@]": ("0f180d00000000", 3, 7),
        "nop dword ptr [@]": ("0f1f0500000000", 3, 7),
        "fld qword ptr [@]; fstp st(0)": ("dd0500000000ddd8", 2, 6),
        "fild dword ptr [@]; fstp st(0)": ("db0500000000ddd8", 2, 6),
        "push qword ptr [@]; pop rcx": ("ff350000000059", 2, 6),
        "push word ptr [@]; pop ax": ("66ff35000000006658", 3, 7),
        "mov rax, rax; mov [@], rax; mov rax, rax": ("4889c0488905000000004889c0", 6, 10),
        "lea ax, [@]": ("668d0500000000", 3, 7),
    },
    "x86": {
        "cmove edx, ebx": ("0f44d3", None, None),
        "mov dl, 5": ("b205", None, None),
        "mov dh, 5": ("b605", None, None),
        "mov bx, 0x1234": ("66bb3412", None, None),
        "sete dl": ("0f94c2", None, None),
        "imul edx, ebx, 100": ("6bd36485e4", None, None),
        "xadd ebx, edx": ("0fc1d385e4", None, None),
        "bswap ebx": ("0fcb", None, None),
        "xchg edx, ebx": ("87d3", None, None),
        "shl edx, 5": ("c1e20585e4", None, None),
        "shrd edx, ebx, 7": ("0facda0785e4", None, None),
        "lea edx, [ebx + esi*4 + 5]": ("8d54b305", None, None),
        "lea dx, [ebx + 1]": ("668d5301", None, None),
        "lea edx, [bx + si]": ("678d10", None, None),
        "movzx edx, bl": ("0fb6d3", None, None),
        "movzx ebx, dh": ("0fb6de", None, None),
        "movsx esi, si": ("0fbff6", None, None),
        "sub edx, ebx": ("29da85e4", None, None),
        "adc esi, 0x12345678": ("81d67856341285e4", None, None),
        "inc edx": ("4285e4", None, None),
        "dec word ptr [edi]": ("66ff0f85e4", None, None),
        "neg ebx": ("f7db85e4", None, None),
        "pushfd; pop edx": ("9c5a", None, None),
        "pushad; popad": ("6061", None, None),
        "push edx; pop ebx": ("525b", None, None),
        "push 0x11223344; pop esi": ("68443322115e", None, None),
        "push 5; pop edx": ("6a055a", None, None),
        "enter 16, 0; leave": ("c8100000c9", None, None),
        "mov ecx, 3; cld; rep stosb": ("b903000000fcf3aa", None, None),
        "stosd": ("ab", None, None),
        "mov [edi], ebx": ("891f", None, None),
        "mov edx, [edi + 8]": ("8b5708", None, None),
        "mov edx, [edi + 0x100]": ("8b9700010000", None, None),
        "mov byte ptr [edi], 7": ("c60707", None, None),
        "mov dword ptr [edi + 0x10], 0x11223344": ("c7471044332211", None, None),
        "mov dword ptr [edi + 0x110], 0x11223344": ("c7871001000044332211", None, None),
        "mov dword ptr ss:[edi + 0x110], 0x11223344": ("36c7871001000044332211", None, None),
        "mov word ptr [edi + 0x110], 0x1122": ("66c787100100002211", None, None),
        "lock add dword ptr [edi + 0x110], 0x11223344": ("f08187100100004433221185e4", None, None),
        "lock add dword ptr ss:[edi + 0x110], 0x11223344": ("36f08187100100004433221185e4", None, None),
        "lock cmpxchg [edi + 8], ebx": ("f00fb15f0885e4", None, None),
        "push dword ptr [edi]; pop ebx": ("ff375b", None, None),
        "pop dword ptr [edi]; push dword ptr [edi]": ("8f07ff37", None, None),
        "movups [edi + 0x20], xmm1": ("0f114f20", None, None),
        "movups xmm1, [edi + 0x20]": ("0f104f20", None, None),
        "movd edx, xmm1": ("660f7eca", None, None),
        "movd xmm1, ebx": ("660f6ecb", None, None),
        "pinsrw xmm1, ebx, 1": ("660fc4cb01", None, None),
        "nop": ("90", None, None),
        "nop dword ptr [eax + eax + 0x200]": ("0f1f840000020000", None, None),
        "data16 nop word ptr [eax + eax + 0x200]": ("66660f1f840000020000", None, None),
        "data16 cs nop word ptr [eax + eax + 0x200]": ("662e660f1f840000020000", None, None),
        "data16 data16 cs nop word ptr [eax + eax + 0x200]": ("66662e660f1f840000020000", None, None),
        "data16 data16 data16 cs nop word ptr [eax + eax + 0x200]": ("6666662e660f1f840000020000", None, None),
        "data16 data16 data16 data16 cs nop word ptr [eax + eax + 0x200]": ("666666662e660f1f840000020000", None, None),
        "data16 data16 data16 data16 data16 cs nop word ptr [eax + eax + 0x200]": ("66666666662e660f1f840000020000", None, None),
        "call 1f; 1: add dword ptr [esp], 5; pop edx": ("e800000000830424055a85e4", None, None),
        "call 1f; 1: pop dword ptr [edi]": ("e8000000008f07", None, None),
        "call 1f; 1: mov edx, [esp]; pop ebx": ("e8000000008b14245b", None, None),
        "call 1f; 1: pop edx; add edx, 0x1234": ("e8000000005a81c23412000085e4", None, None),
        "call 1f; 1: pop edx; push edx; pop ebx": ("e8000000005a525b", None, None),
        "call 1f; 1: pop edx; call 1f; 1: pop ebx": ("e8000000005ae8000000005b", None, None),
        "call 1f; 1: nop; pop edx": ("e800000000905a", None, None),
        "call 1f; inc esi; 1: pop edx": ("e801000000465a", None, None),
        "push esi; call 1f; inc esi; 1: pop edx; pop esi": ("56e801000000465a5e", None, None),
        "call 1f; ret; 1: pop edx": ("e801000000c35a", None, None),
        "loop 1f; 1:": ("e200", None, None),
        "jecxz 1f; 1:": ("e300", None, None),
        "fld dword ptr [edi]; fstp st(0)": ("d907ddd8", None, None),
        "fnstcw [edi]": ("d93f", None, None),
        "mov edx, gs:[0]": ("658b1500000000", None, None),
        "mov edx, gs": ("8cea", None, None),
        "cwde; cdq": ("9899", None, None),
    },
    "a64": {
        "movk x1, #5, lsl #16": ("a100a0f2", None, None),
        "movn x2, #7": ("e2008092", None, None),
        "mov w3, #9": ("23018052", None, None),
        "csel x1, x2, x3, eq": ("4100839a", None, None),
        "cset x2, ne": ("e2079f9a", None, None),
        "csinc x1, x2, x3, ne": ("4114839a", None, None),
        "bfi x1, x2, #3, #5": ("41107db3", None, None),
        "ubfx x2, x3, #4, #9": ("623044d3", None, None),
        "madd x1, x2, x3, x3": ("410c039b", None, None),
        "umulh x1, x2, x3": ("417cc39b", None, None),
        "adds x1, x2, x3": ("410003abff0700f1", None, None),
        "subs x1, x2, #7": ("411c00f1ff0700f1", None, None),
        "add x1, x2, x3, lsl #3": ("410c038b", None, None),
        "add x1, x2, w3, uxtw #2": ("4148238b", None, None),
        "add x1, sp, #16": ("e1430091", None, None),
        "sub sp, sp, #32; add sp, sp, #32": ("ff8300d1ff830091", None, None),
        "and x1, x2, #0xff00": ("411c7892", None, None),
        "eor w1, w2, w3": ("4100034a", None, None),
        "lsl x1, x2, x3": ("4120c39a", None, None),
        "extr x1, x2, x3, #5": ("4114c393", None, None),
        "rev x1, x2": ("410cc0da", None, None),
        "clz x3, x1": ("2310c0da", None, None),
        "sdiv x1, x2, x3": ("410cc39a", None, None),
        "crc32x w1, w2, x3": ("414cc39a", None, None),
        "ccmp x1, x2, #0, eq": ("200042faff0700f1", None, None),
        "tst x1, #1": ("3f0040f2ff0700f1", None, None),
        "mrs x1, nzcv": ("01423bd5", None, None),
        "mrs x2, tpidr_el0": ("42d03bd5", None, None),
        "dmb ish": ("bf3b03d5", None, None),
        "isb": ("df3f03d5", None, None),
        "hint #34": ("5f2403d5", None, None),
        "hint #16": ("1f2203d5", None, None),
        "yield": ("3f2003d5", None, None),
        "ldr x1, [x4, #8]": ("810440f9", None, None),
        "ldr w1, [x4]": ("810040b9", None, None),
        "ldrsw x2, [x4, #4]": ("820480b9", None, None),
        "ldrb w3, [x4, #1]": ("83044039", None, None),
        "ldrsh x1, [x4, #2]": ("81048079", None, None),
        "ldur x1, [x4, #-9]": ("81705ff8", None, None),
        "ldr x1, [x4], #16": ("810441f8", None, None),
        "ldr x1, [x4, #16]!": ("810c41f8", None, None),
        "ldp x1, x2, [x4, #16]": ("810841a9", None, None),
        "ldpsw x1, x2, [x4, #16]": ("81084269", None, None),
        "ldnp x2, x3, [x4]": ("820c40a8", None, None),
        "stp x1, x2, [x4, #-16]!": ("8108bfa9", None, None),
        "str x2, [x4], #16": ("820401f8", None, None),
        "strb w2, [x4, #3]": ("820c0039", None, None),
        "str x3, [sp, #-16]! ; ldr x1, [sp], #16": ("e30f1ff8e10741f8", None, None),
        "stp x1, x30, [sp, #-32]!; ldp x2, x30, [sp], #32": ("e17bbea9e27bc2a8", None, None),
        "ldr q0, [x4]": ("8000c03d", None, None),
        "ldr d1, [x4, #8]": ("810440fd", None, None),
        "str q1, [x4, #32]": ("8108803d", None, None),
        "ldp d0, d1, [x4]": ("8004406d", None, None),
        "st1 {v0.16b}, [x4]": ("8070004c", None, None),
        "ldar x1, [x4]": ("81fcdfc8", None, None),
        "stlr x2, [x4]": ("82fc9fc8", None, None),
        "ldxr x1, [x4]; stxr w2, x1, [x4]": ("817c5fc8817c02c8", None, None),
        "prfm pldl1keep, [x4]": ("800080f9", None, None),
        "fmov d0, x1": ("2000679e", None, None),
        "fmov x1, d0": ("0100669e", None, None),
        "scvtf d0, x2": ("4000629e", None, None),
        "dup v0.2d, x1": ("200c084e", None, None),
        "mov v1.d[1], x3": ("611c184e", None, None),
        "movi v0.2d, #0": ("00e4006f", None, None),
        "fadd d0, d0, d1": ("0028611e", None, None),
        "adr x1, #0; adr x2, #0; sub x1, x1, x2": ("0100001002000010210002cb", None, None),
        "adr x1, #4; add x1, x1, #8": ("2100001021200091", None, None),
        "adrp x1, #0; add x1, x1, #0x123": ("01000090218c0491", None, None),
        "bl #4": ("01000094", None, None),
        "b #4": ("01000014", None, None),
        "b.al #4": ("2e000054", None, None),
        "tbnz x1, #3, #4": ("21001837", None, None),
        "cbz w2, #4": ("22000034", None, None),
    },
    "a32": {
        "movt r4, #0x1234": ("344241e3", None, None),
        "mvn r5, #7": ("0750e0e3", None, None),
        "moveq r4, r5": ("0540a001", None, None),
        "movne r6, #5": ("0560a013", None, None),
        "addne r4, r5, r6": ("06408510", None, None),
        "add r4, r5, r6, lsl #3": ("864185e0", None, None),
        "rsb r4, r5, #7": ("074065e2", None, None),
        "bic r5, r6, #0xff": ("ff50c6e3", None, None),
        "adds r4, r5, r6": ("064095e000005de3", None, None),
        "adc r4, r5, r6": ("0640a5e0", None, None),
        "tst r4, #1": ("010014e300005de3", None, None),
        "mla r4, r5, r6, r6": ("956624e0", None, None),
        "umull r4, r5, r6, r6": ("964685e0", None, None),
        "bfi r4, r5, #3, #5": ("9541c7e7", None, None),
        "bfc r4, #3, #5": ("9f41c7e7", None, None),
        "ubfx r5, r6, #4, #9": ("5652e8e7", None, None),
        "sxth r4, r5, ror #8": ("7544bfe6", None, None),
        "clz r6, r4": ("146f6fe1", None, None),
        "rbit r4, r5": ("354fffe6", None, None),
        "rev r4, r5": ("354fbfe6", None, None),
        "usat r4, #5, r5": ("1540e5e6", None, None),
        "lsl r4, r5, r6": ("1546a0e1", None, None),
        "asr r4, r5, #4": ("4542a0e1", None, None),
        "add r4, sp, #16": ("10408de2", None, None),
        "sub sp, sp, #32; add sp, sp, #32": ("20d04de220d08de2", None, None),
        "mrs r4, apsr": ("00400fe1", None, None),
        "mrc p15, 0, r5, c13, c0, 3": ("705f1dee", None, None),
        "dmb ish": ("5bf07ff5", None, None),
        "yield": ("01f020e3", None, None),
        "push {r4, r5, r6}; pop {r4, r5, r6}": ("70002de97000bde8", None, None),
        "push {r4, lr}; pop {r5, lr}": ("10402de92040bde8", None, None),
        "str r5, [sp, #-8]!; ldr r6, [sp], #8": ("08502de508609de4", None, None),
        "ldr r4, [r7, #4]": ("044097e5", None, None),
        "ldr r4, [r7, #-8]": ("084017e5", None, None),
        "ldrb r5, [r7, #1]": ("0150d7e5", None, None),
        "ldrsh r6, [r7, #2]": ("f260d7e1", None, None),
        "ldrh r6, [r7, #6]": ("b660d7e1", None, None),
        "ldr r4, [r7], #4": ("044097e4", None, None),
        "ldr r4, [r7, #-8]!": ("084037e5", None, None),
        "ldrd r4, r5, [r7, #8]": ("d840c7e1", None, None),
        "strd r4, r5, [r7, #16]": ("f041c7e1", None, None),
        "ldm r7, {r4, r5, r6}": ("700097e8", None, None),
        "ldm r7!, {r4, r5}": ("3000b7e8", None, None),
        "stmdb r7!, {r4, r5}": ("300027e9", None, None),
        "str r5, [r7], #4": ("045087e4", None, None),
        "strb r5, [r7, #3]": ("0350c7e5", None, None),
        "ldrex r4, [r7]; strex r5, r4, [r7]": ("9f4f97e1945f87e1", None, None),
        "ldreq r4, [r7]": ("00409705", None, None),
        "strne r4, [r7]": ("00408715", None, None),
        "pld [r7]": ("00f0d7f5", None, None),
        "vldr d0, [r7, #8]": ("020b97ed", None, None),
        "vldr s1, [r7, #8]": ("020ad7ed", None, None),
        "vstr d1, [r7, #16]": ("041b87ed", None, None),
        "vldm r7, {d0, d1}": ("040b97ec", None, None),
        "vpush {d0, d1}; vpop {d2, d3}": ("040b2ded042bbdec", None, None),
        "vmov s0, r4": ("104a00ee", None, None),
        "vmov r4, s0": ("104a10ee", None, None),
        "vmov r4, r5, d0": ("104b55ec", None, None),
        "vmov d1, r5, r6": ("115b46ec", None, None),
        "vadd.f64 d0, d0, d1": ("010b30ee", None, None),
        "veor d0, d0, d1": ("110100f3", None, None),
        "vdup.32 q0, r4": ("104ba0ee", None, None),
        "vcvt.f64.s32 d0, s1": ("e00bb8ee", None, None),
        "mov r4, pc; mov r5, pc; sub r4, r4, r5": ("0f40a0e10f50a0e1054044e0", None, None),
        "str pc, [r7]": ("00f087e5", None, None),
        "stm r7, {r4, pc}": ("108087e8", None, None),
        "add r4, pc, #4": ("04408fe2", None, None),
        "add r4, pc, #4; add r4, r4, #8": ("04408fe2084084e2", None, None),
        "sub r4, pc, #8": ("08404fe2", None, None),
        "sub r4, pc, r5": ("05404fe0", None, None),
        "add r4, pc, r5, lsl #2": ("05418fe0", None, None),
        "orr r4, pc, #1": ("01408fe3", None, None),
        "mvn r4, pc": ("0f40e0e1", None, None),
        "rsb r4, pc, #7": ("07406fe2", None, None),
        "cmp pc, r4": ("04005fe100005de3", None, None),
        "addeq r4, r4, pc": ("0f408400", None, None),
        "push {pc}; pop {r4}": ("04f02de504409de4", None, None),
        "pld [pc, #16]": ("10f0dff5", None, None),
        "strne pc, [r7]": ("00f08715", None, None),
    },
    "t32": {
        "movt r4, #0x1234": ("c1f23424", None, None),
        "mvn r5, #7": ("6ff00705", None, None),
        "it eq; moveq r4, r5": ("08bf2c46", None, None),
        "it ne; movne r6, #5": ("18bf0526", None, None),
        "it ne; addne r4, r5, r6": ("18bfac19", None, None),
        "add r4, r5, r6, lsl #3": ("05ebc604", None, None),
        "rsb r4, r5, #7": ("c5f10704", None, None),
        "bic r5, r6, #0xff": ("26f0ff05", None, None),
        "adds r4, r5, r6": ("ac19bdf1000f", None, None),
        "adc r4, r5, r6": ("45eb0604", None, None),
        "tst r4, #1": ("14f0010fbdf1000f", None, None),
        "mla r4, r5, r6, r6": ("05fb0664", None, None),
        "umull r4, r5, r6, r6": ("a6fb0645", None, None),
        "bfi r4, r5, #3, #5": ("65f3c704", None, None),
        "bfc r4, #3, #5": ("6ff3c704", None, None),
        "ubfx r5, r6, #4, #9": ("c6f30815", None, None),
        "sxth r4, r5, ror #8": ("0ffa95f4", None, None),
        "clz r6, r4": ("b4fa84f6", None, None),
        "rbit r4, r5": ("95faa5f4", None, None),
        "rev r4, r5": ("2cba", None, None),
        "usat r4, #5, r5": ("85f30504", None, None),
        "lsl r4, r5, r6": ("05fa06f4", None, None),
        "asr r4, r5, #4": ("4fea2514", None, None),
        "add r4, sp, #16": ("04ac", None, None),
        "sub sp, sp, #32; add sp, sp, #32": ("88b008b0", None, None),
        "mrs r4, apsr": ("eff30084", None, None),
        "mrc p15, 0, r5, c13, c0, 3": ("1dee705f", None, None),
        "dmb ish": ("bff35b8f", None, None),
        "yield": ("10bf", None, None),
        "push {r4, r5, r6}; pop {r4, r5, r6}": ("70b470bc", None, None),
        "push {r4, lr}; pop {r5, lr}": ("10b5bde82040", None, None),
        "str r5, [sp, #-8]!; ldr r6, [sp], #8": ("4df8085d5df8086b", None, None),
        "ldr r4, [r7, #4]": ("7c68", None, None),
        "ldr r4, [r7, #-8]": ("57f8084c", None, None),
        "ldrb r5, [r7, #1]": ("7d78", None, None),
        "ldrsh r6, [r7, #2]": ("b7f90260", None, None),
        "ldrh r6, [r7, #6]": ("fe88", None, None),
        "ldr r4, [r7], #4": ("57f8044b", None, None),
        "ldr r4, [r7, #-8]!": ("57f8084d", None, None),
        "ldrd r4, r5, [r7, #8]": ("d7e90245", None, None),
        "strd r4, r5, [r7, #16]": ("c7e90445", None, None),
        "ldm r7, {r4, r5, r6}": ("97e87000", None, None),
        "ldm r7!, {r4, r5}": ("30cf", None, None),
        "stmdb r7!, {r4, r5}": ("27e93000", None, None),
        "str r5, [r7], #4": ("47f8045b", None, None),
        "strb r5, [r7, #3]": ("fd70", None, None),
        "ldrex r4, [r7]; strex r5, r4, [r7]": ("57e8004f47e80045", None, None),
        "it eq; ldreq r4, [r7]": ("08bf3c68", None, None),
        "it ne; strne r4, [r7]": ("18bf3c60", None, None),
        "pld [r7]": ("97f800f0", None, None),
        "vldr d0, [r7, #8]": ("97ed020b", None, None),
        "vldr s1, [r7, #8]": ("d7ed020a", None, None),
        "vstr d1, [r7, #16]": ("87ed041b", None, None),
        "vldm r7, {d0, d1}": ("97ec040b", None, None),
        "vpush {d0, d1}; vpop {d2, d3}": ("2ded040bbdec042b", None, None),
        "vmov s0, r4": ("00ee104a", None, None),
        "vmov r4, s0": ("10ee104a", None, None),
        "vmov r4, r5, d0": ("55ec104b", None, None),
        "vmov d1, r5, r6": ("46ec115b", None, None),
        "vadd.f64 d0, d0, d1": ("30ee010b", None, None),
        "veor d0, d0, d1": ("00ff1101", None, None),
        "vdup.32 q0, r4": ("a0ee104b", None, None),
        "vcvt.f64.s32 d0, s1": ("b8eee00b", None, None),
        "add r4, pc, #4": ("0ff20404", None, None),
        "add r4, pc, #4; add r4, r4, #8": ("0ff2040404f10804", None, None),
        "pld [pc, #16]": ("9ff810f0", None, None),
        "itte ne; movne r4, #5; movne r5, #6; moveq r6, #7": ("1abf052406250726", None, None),
        "ite eq; addeq r4, r4, #1; subne r5, r5, #1": ("0cbf641c6d1e", None, None),
        "movs r4, #5": ("0524bdf1000f", None, None),
        "adds r4, r4, r5": ("6419bdf1000f", None, None),
        "lsls r4, r5, #3": ("ec00bdf1000f", None, None),
        "ldr r4, [sp, #4]": ("019c", None, None),
        "str r5, [sp, #-4]!; ldr r5, [sp], #4": ("4df8045d5df8045b", None, None),
        "add r4, sp, #8": ("02ac", None, None),
        "add r4, r5": ("2c44", None, None),
        "uxtb r4, r5": ("ecb2", None, None),
        "mov r4, pc; mov r5, pc; subs r4, r4, r5": ("7c467d46641bbdf1000f", None, None),
        "add r4, pc": ("7c44", None, None),
        "it ne; addne r4, pc": ("18bf7c44", None, None),
        "adr.w r4, #8": ("0ff20804", None, None),
        "adr.w r4, #-8": ("aff20804", None, None),
        "adr r4, #8; adds r4, #4": ("02a40434bdf1000f", None, None),
        "cbz r4, #0; nop": ("04b100bf", None, None),
        "cbnz r5, #2; nop; nop": ("0db900bf00bf", None, None),
        "b #0; nop": ("00e000bf", None, None),
        "beq #0; nop": ("00d000bf", None, None),
        "orr.w r4, r5, #0xff00": ("45f47f44", None, None),
        "addw r4, r5, #0x123": ("05f22314", None, None),
        "ldr.w r4, [r7, #0x80]": ("d7f88040", None, None),
        "strd r4, r5, [sp, #-16]!; ldrd r5, r6, [sp], #16": ("6de90445fde80456", None, None),
    },
}

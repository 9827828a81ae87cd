-------------------------------- MODULE Ext --------------------------------
(***************************************************************************)
(* Instructions (and short groups of them) whose results Reloc.tla does    *)
(* not compute: the values they leave are opaque terms over what they      *)
(* read.  A copied prologue must reach the same terms; what the terms      *)
(* stand for is read off a run of the prologue in its original place.      *)
(*                                                                         *)
(*   n    assembly text; @ is an operand relative to the instruction       *)
(*        pointer (field y of the instruction)                             *)
(*   rd   registers that may be read                                       *)
(*   wr   registers that are overwritten on every path                     *)
(*   may  registers of which a part, or sometimes all, is overwritten      *)
(*   m    "" no such operand, "a" address only, "r" read, "w" written      *)
(*   fl   changes flags (and is followed by a comparison that clears Z)    *)
(*   ok   of a form that has to be relocated                               *)
(*   sk   goes through register 4, which points into the stack at first    *)
(*                                                                         *)
(* Registers 1 to 4 are rax, rcx, rdx, rdi (x64); edx, ebx, esi, edi       *)
(* (x86); x1 to x4 (a64); r4 to r7 (a32, t32).                             *)
(***************************************************************************)
Row(n, rd, wr, may, m, fl, ok, sk) ==
  [n |-> n, rd |-> rd, wr |-> wr, may |-> may, m |-> m, fl |-> fl, ok |-> ok, sk |-> sk]

X64Rows == {
  Row("cmove rax, rcx", {1, 2}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("cmovne edi, edx", {3, 4}, {}, {4}, "", FALSE, TRUE, FALSE),
  Row("mov al, 5", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("mov ah, 5", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("mov cx, 0x1234", {2}, {}, {2}, "", FALSE, TRUE, FALSE),
  Row("mov dil, 3", {4}, {}, {4}, "", FALSE, TRUE, FALSE),
  Row("sete dl", {3}, {}, {3}, "", FALSE, TRUE, FALSE),
  Row("mul rcx", {1, 2}, {1, 3}, {}, "", TRUE, TRUE, FALSE),
  Row("mul cl", {1, 2}, {}, {1}, "", TRUE, TRUE, FALSE),
  Row("imul rdx, rcx, 100", {2}, {3}, {}, "", TRUE, TRUE, FALSE),
  Row("imul eax, ecx, 0x12345", {2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("cqo", {1}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("cdq", {1}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("cwd", {1, 3}, {}, {3}, "", FALSE, TRUE, FALSE),
  Row("cdqe", {1}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("cbw", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("shl rax, cl", {1, 2}, {}, {1}, "", TRUE, TRUE, FALSE),
  Row("sar edx, cl", {2, 3}, {}, {3}, "", TRUE, TRUE, FALSE),
  Row("rol rcx, 7", {2}, {2}, {}, "", TRUE, TRUE, FALSE),
  Row("shld rax, rdx, cl", {1, 2, 3}, {}, {1}, "", TRUE, TRUE, FALSE),
  Row("xadd rcx, rdx", {2, 3}, {2, 3}, {}, "", TRUE, TRUE, FALSE),
  Row("cmpxchg rcx, rdx", {1, 2, 3}, {}, {1, 2}, "", TRUE, TRUE, FALSE),
  Row("bsf rax, rcx", {1, 2}, {}, {1}, "", TRUE, TRUE, FALSE),
  Row("btc rax, rcx", {1, 2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("xchg rax, rcx", {1, 2}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("xchg rdx, rdi", {3, 4}, {3, 4}, {}, "", FALSE, TRUE, FALSE),
  Row("xchg al, ah", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("bswap ecx", {2}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("lea rax, [rcx + rdx*4 + 5]", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("lea ax, [rcx + 1]", {1, 2}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("lea edx, [eax + 4]", {1}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("movzx eax, cl", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("movzx ecx, ah", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("movsx rdx, dx", {3}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("movsxd rcx, ecx", {2}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("neg rdx", {3}, {3}, {}, "", TRUE, TRUE, FALSE),
  Row("not rcx", {2}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("sub rax, rdx", {1, 3}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("adc rax, rcx", {1, 2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("or edx, 0x10", {3}, {3}, {}, "", TRUE, TRUE, FALSE),
  Row("test rcx, rcx", {2}, {}, {}, "", TRUE, TRUE, FALSE),
  Row("movq rax, xmm1", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("movq xmm1, rcx", {2}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("cvttsd2si rdx, xmm0", {}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("cvtsi2sd xmm1, rcx", {2}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("pextrw eax, xmm1, 2", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("pinsrw xmm1, ecx, 1", {2}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("lahf", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("sahf", {1}, {}, {}, "", TRUE, TRUE, FALSE),
  Row("pushfq; pop rcx", {}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("push rax; pop rcx", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("xor rax, [rsp]; xor rax, [rsp]", {1}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("enter 16, 0; leave", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mov rax, fs:[0]", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("mov ecx, 3; cld; rep stosb", {1, 4}, {2}, {4}, "", FALSE, TRUE, TRUE),
  Row("mov ecx, 2; rep stosq", {1, 4}, {2}, {4}, "", FALSE, TRUE, TRUE),
  Row("stosd", {1, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("mov [rdi], rcx", {2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov qword ptr [rdi + 0x100], 0x1234567", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov rax, [rdi + 8]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("movsx ecx, byte ptr [rdi + 3]", {4}, {2}, {}, "", FALSE, TRUE, TRUE),
  Row("push qword ptr [rdi]; pop rdx", {4}, {3}, {}, "", FALSE, TRUE, TRUE),
  Row("lock xadd [rdi], rax", {1, 4}, {1}, {}, "", TRUE, TRUE, TRUE),
  Row("lock cmpxchg [rdi + 8], rdx", {1, 3, 4}, {}, {1}, "", TRUE, TRUE, TRUE),
  Row("movups [rdi + 0x20], xmm1", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov eax, 0; cpuid", {}, {1, 2, 3}, {}, "", FALSE, FALSE, FALSE),
  Row("data16 data16 data16 data16 data16 cs nop word ptr [rax + rax]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mov rdx, 0x1122334455667788", {}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("rdsspq rax", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("rdsspd ecx", {2}, {}, {2}, "", FALSE, TRUE, FALSE),
  Row("xor ecx, ecx; bsf rax, rcx", {1}, {2}, {1}, "", TRUE, TRUE, FALSE),
  Row("xor ecx, ecx; bsr edx, ecx", {3}, {2}, {3}, "", TRUE, TRUE, FALSE),
  Row("xor ecx, ecx; rep stosb", {1, 4}, {2}, {4}, "", TRUE, TRUE, TRUE),
  Row("xor ecx, ecx; rep lodsq", {1}, {2}, {1}, "", TRUE, FALSE, FALSE),
  Row("xor ecx, ecx; rep lodsd", {1}, {2}, {1}, "", TRUE, FALSE, FALSE),
  Row("xor ecx, ecx; repne scasb", {1, 4}, {2}, {4}, "", TRUE, TRUE, TRUE),
  Row("xor ecx, ecx; lar eax, cx", {1}, {2}, {1}, "", TRUE, TRUE, FALSE),
  Row("xor ecx, ecx; lsl edx, cx", {3}, {2}, {3}, "", TRUE, TRUE, FALSE),
  Row("xor ecx, ecx; shl rax, cl", {1}, {2}, {1}, "", TRUE, TRUE, FALSE),
  Row("xor ecx, ecx; shld rax, rdx, cl", {1, 3}, {2}, {1}, "", TRUE, TRUE, FALSE),
  Row("xor ecx, ecx; xgetbv", {}, {1, 2, 3}, {}, "", TRUE, FALSE, FALSE),
  Row("cmpxchg8b [rdi]", {1, 2, 3, 4}, {}, {1, 3}, "", TRUE, TRUE, TRUE),
  Row("lock cmpxchg16b [rdi]", {1, 2, 3, 4}, {}, {1, 3}, "", TRUE, TRUE, TRUE),
  Row("tzcnt rax, rcx", {2}, {}, {1}, "", TRUE, TRUE, FALSE),
  Row("loop 1f; 1:", {2}, {2}, {}, "", FALSE, FALSE, FALSE),
  Row("call 1f; 1: pop rax", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("call 1f; 1: add qword ptr [rsp], 3; pop rdx", {}, {3}, {}, "", TRUE, FALSE, FALSE),
  Row("lea rax, [rip - 0x400]; lea rcx, [rip - 0x300]; sub rax, rcx", {}, {1, 2}, {}, "", TRUE, FALSE, FALSE),
  Row("imul rax, [@]", {1}, {1}, {}, "r", TRUE, TRUE, FALSE),
  Row("imul rcx, [@], 0x1234567", {}, {2}, {}, "r", TRUE, TRUE, FALSE),
  Row("imul rcx, [@], 7", {}, {2}, {}, "r", TRUE, TRUE, FALSE),
  Row("mul qword ptr [@]", {1}, {1, 3}, {}, "r", TRUE, TRUE, FALSE),
  Row("add byte ptr [@], 7", {}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("mov word ptr [@], 0x1234", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("mov byte ptr [@], 0x12", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("test dword ptr [@], 0x11223344", {}, {}, {}, "r", TRUE, TRUE, FALSE),
  Row("xor rdx, [@]", {3}, {3}, {}, "r", TRUE, TRUE, FALSE),
  Row("sub [@], cl", {2}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("adc qword ptr [@], 0x1234567", {}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("neg qword ptr [@]", {}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("lock inc dword ptr [@]", {}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("lock cmpxchg [@], rcx", {1, 2}, {}, {1}, "w", TRUE, TRUE, FALSE),
  Row("lock xadd [@], rdx", {3}, {3}, {}, "w", TRUE, TRUE, FALSE),
  Row("cmpxchg [@], cl", {1, 2}, {}, {1}, "w", TRUE, TRUE, FALSE),
  Row("xadd [@], ax", {1}, {}, {1}, "w", TRUE, TRUE, FALSE),
  Row("bt dword ptr [@], 5", {}, {}, {}, "r", TRUE, TRUE, FALSE),
  Row("bts qword ptr [@], 3", {}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("bsf rdx, [@]", {3}, {}, {3}, "r", TRUE, TRUE, FALSE),
  Row("shl dword ptr [@], cl", {2}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("sar word ptr [@], 3", {}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("shld [@], rdx, cl", {2, 3}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("shrd [@], rdx, 5", {3}, {}, {}, "w", TRUE, TRUE, FALSE),
  Row("sete byte ptr [@]", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("cmovne rax, [@]", {1}, {}, {1}, "r", FALSE, TRUE, FALSE),
  Row("cmove ecx, [@]", {2}, {}, {2}, "r", FALSE, TRUE, FALSE),
  Row("movzx dx, byte ptr [@]", {3}, {}, {3}, "r", FALSE, TRUE, FALSE),
  Row("movsx eax, word ptr [@]", {}, {1}, {}, "r", FALSE, TRUE, FALSE),
  Row("mov ah, [@]", {1}, {}, {1}, "r", FALSE, FALSE, FALSE),
  Row("mov [@], ah", {1}, {}, {}, "w", FALSE, FALSE, FALSE),
  Row("mov [@], dil", {4}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("xchg cl, [@]", {2}, {}, {2}, "w", FALSE, TRUE, FALSE),
  Row("xchg edx, [@]", {3}, {3}, {}, "w", FALSE, TRUE, FALSE),
  Row("cvtsi2sd xmm1, qword ptr [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("cvttsd2si rax, [@]", {}, {1}, {}, "r", FALSE, TRUE, FALSE),
  Row("addsd xmm1, [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("sqrtss xmm1, [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("pinsrw xmm1, [@], 3", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("movhps xmm1, [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("movlps [@], xmm1", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("movhps [@], xmm1", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("movd xmm1, [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("movd [@], xmm1", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("movq xmm1, qword ptr [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("movups xmm1, [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("movdqu [@], xmm1", {}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("movss xmm1, [@]", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("movddup xmm1, [@]", {}, {}, {}, "r", FALSE, FALSE, FALSE),
  Row("pshufd xmm1, xmm1, 0x1b", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("ucomisd xmm1, [@]", {}, {}, {}, "r", TRUE, TRUE, FALSE),
  Row("movnti [@], rcx", {2}, {}, {}, "w", FALSE, TRUE, FALSE),
  Row("prefetcht0 [@]", {}, {}, {}, "a", FALSE, TRUE, FALSE),
  Row("nop dword ptr [@]", {}, {}, {}, "a", FALSE, TRUE, FALSE),
  Row("fld qword ptr [@]; fstp st(0)", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("fild dword ptr [@]; fstp st(0)", {}, {}, {}, "r", FALSE, TRUE, FALSE),
  Row("push qword ptr [@]; pop rcx", {}, {2}, {}, "r", FALSE, TRUE, FALSE),
  Row("push word ptr [@]; pop ax", {1}, {}, {1}, "r", FALSE, FALSE, FALSE),
  Row("mov rax, rax; mov [@], rax; mov rax, rax", {1}, {1}, {}, "w", FALSE, TRUE, FALSE),
  Row("lea ax, [@]", {1}, {}, {1}, "a", FALSE, FALSE, FALSE)}

X86Rows == {
  Row("cmove edx, ebx", {1, 2}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("mov dl, 5", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("mov dh, 5", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("mov bx, 0x1234", {2}, {}, {2}, "", FALSE, TRUE, FALSE),
  Row("sete dl", {1}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("imul edx, ebx, 100", {2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("xadd ebx, edx", {1, 2}, {1, 2}, {}, "", TRUE, TRUE, FALSE),
  Row("bswap ebx", {2}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("xchg edx, ebx", {1, 2}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("shl edx, 5", {1}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("shrd edx, ebx, 7", {1, 2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("lea edx, [ebx + esi*4 + 5]", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("lea dx, [ebx + 1]", {1, 2}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("lea edx, [bx + si]", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("movzx edx, bl", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("movzx ebx, dh", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("movsx esi, si", {3}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("sub edx, ebx", {1, 2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("adc esi, 0x12345678", {3}, {3}, {}, "", TRUE, TRUE, FALSE),
  Row("inc edx", {1}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("dec word ptr [edi]", {4}, {}, {}, "", TRUE, TRUE, TRUE),
  Row("neg ebx", {2}, {2}, {}, "", TRUE, TRUE, FALSE),
  Row("pushfd; pop edx", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("pushad; popad", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("push edx; pop ebx", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("push 0x11223344; pop esi", {}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("push 5; pop edx", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("enter 16, 0; leave", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mov ecx, 3; cld; rep stosb", {0, 4}, {}, {4}, "", FALSE, TRUE, TRUE),
  Row("stosd", {0, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("mov [edi], ebx", {2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov edx, [edi + 8]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("mov edx, [edi + 0x100]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("mov byte ptr [edi], 7", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov dword ptr [edi + 0x10], 0x11223344", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov dword ptr [edi + 0x110], 0x11223344", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov dword ptr ss:[edi + 0x110], 0x11223344", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov word ptr [edi + 0x110], 0x1122", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("lock add dword ptr [edi + 0x110], 0x11223344", {4}, {}, {}, "", TRUE, TRUE, TRUE),
  Row("lock add dword ptr ss:[edi + 0x110], 0x11223344", {4}, {}, {}, "", TRUE, TRUE, TRUE),
  Row("lock cmpxchg [edi + 8], ebx", {0, 2, 4}, {}, {0}, "", TRUE, FALSE, TRUE),
  Row("push dword ptr [edi]; pop ebx", {4}, {2}, {}, "", FALSE, TRUE, TRUE),
  Row("pop dword ptr [edi]; push dword ptr [edi]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("movups [edi + 0x20], xmm1", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("movups xmm1, [edi + 0x20]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("movd edx, xmm1", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("movd xmm1, ebx", {2}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("pinsrw xmm1, ebx, 1", {2}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("nop", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("nop dword ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("data16 nop word ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("data16 cs nop word ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("data16 data16 cs nop word ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("data16 data16 data16 cs nop word ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("data16 data16 data16 data16 cs nop word ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("data16 data16 data16 data16 data16 cs nop word ptr [eax + eax + 0x200]", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("call 1f; 1: add dword ptr [esp], 5; pop edx", {}, {1}, {}, "", TRUE, FALSE, FALSE),
  Row("call 1f; 1: pop dword ptr [edi]", {4}, {}, {}, "", FALSE, FALSE, TRUE),
  Row("call 1f; 1: mov edx, [esp]; pop ebx", {}, {1, 2}, {}, "", FALSE, FALSE, FALSE),
  Row("call 1f; 1: pop edx; add edx, 0x1234", {}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("call 1f; 1: pop edx; push edx; pop ebx", {}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("call 1f; 1: pop edx; call 1f; 1: pop ebx", {}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("call 1f; 1: nop; pop edx", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("call 1f; inc esi; 1: pop edx", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("push esi; call 1f; inc esi; 1: pop edx; pop esi", {3}, {1, 3}, {}, "", FALSE, FALSE, FALSE),
  Row("call 1f; ret; 1: pop edx", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("loop 1f; 1:", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("jecxz 1f; 1:", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("fld dword ptr [edi]; fstp st(0)", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("fnstcw [edi]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("mov edx, gs:[0]", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("mov edx, gs", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("cwde; cdq", {0}, {0, 1}, {}, "", FALSE, FALSE, FALSE)}

A64Rows == {
  Row("movk x1, #5, lsl #16", {1}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("movn x2, #7", {}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("mov w3, #9", {}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("csel x1, x2, x3, eq", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("cset x2, ne", {}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("csinc x1, x2, x3, ne", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("bfi x1, x2, #3, #5", {1, 2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("ubfx x2, x3, #4, #9", {3}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("madd x1, x2, x3, x3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("umulh x1, x2, x3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("adds x1, x2, x3", {2, 3}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("subs x1, x2, #7", {2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("add x1, x2, x3, lsl #3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add x1, x2, w3, uxtw #2", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add x1, sp, #16", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("sub sp, sp, #32; add sp, sp, #32", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("and x1, x2, #0xff00", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("eor w1, w2, w3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("lsl x1, x2, x3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("extr x1, x2, x3, #5", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("rev x1, x2", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("clz x3, x1", {1}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("sdiv x1, x2, x3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("crc32x w1, w2, x3", {2, 3}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("ccmp x1, x2, #0, eq", {1, 2}, {}, {}, "", TRUE, TRUE, FALSE),
  Row("tst x1, #1", {1}, {}, {}, "", TRUE, TRUE, FALSE),
  Row("mrs x1, nzcv", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("mrs x2, tpidr_el0", {}, {2}, {}, "", FALSE, FALSE, FALSE),
  Row("dmb ish", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("isb", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("hint #34", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("hint #16", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("yield", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("ldr x1, [x4, #8]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr w1, [x4]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrsw x2, [x4, #4]", {4}, {2}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrb w3, [x4, #1]", {4}, {3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrsh x1, [x4, #2]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldur x1, [x4, #-9]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr x1, [x4], #16", {4}, {1, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr x1, [x4, #16]!", {4}, {1, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("ldp x1, x2, [x4, #16]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("ldpsw x1, x2, [x4, #16]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("ldnp x2, x3, [x4]", {4}, {2, 3}, {}, "", FALSE, TRUE, TRUE),
  Row("stp x1, x2, [x4, #-16]!", {1, 2, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("str x2, [x4], #16", {2, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("strb w2, [x4, #3]", {2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("str x3, [sp, #-16]! ; ldr x1, [sp], #16", {3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("stp x1, x30, [sp, #-32]!; ldp x2, x30, [sp], #32", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("ldr q0, [x4]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr d1, [x4, #8]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("str q1, [x4, #32]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldp d0, d1, [x4]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("st1 {v0.16b}, [x4]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldar x1, [x4]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("stlr x2, [x4]", {2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldxr x1, [x4]; stxr w2, x1, [x4]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("prfm pldl1keep, [x4]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("fmov d0, x1", {1}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("fmov x1, d0", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("scvtf d0, x2", {2}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("dup v0.2d, x1", {1}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mov v1.d[1], x3", {3}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("movi v0.2d, #0", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("fadd d0, d0, d1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("adr x1, #0; adr x2, #0; sub x1, x1, x2", {}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("adr x1, #4; add x1, x1, #8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("adrp x1, #0; add x1, x1, #0x123", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("bl #4", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("b #4", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("b.al #4", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("tbnz x1, #3, #4", {1}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("cbz w2, #4", {2}, {}, {}, "", FALSE, FALSE, FALSE)}

A32Rows == {
  Row("movt r4, #0x1234", {1}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("mvn r5, #7", {}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("moveq r4, r5", {1, 2}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("movne r6, #5", {3}, {}, {3}, "", FALSE, TRUE, FALSE),
  Row("addne r4, r5, r6", {1, 2, 3}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("add r4, r5, r6, lsl #3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("rsb r4, r5, #7", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("bic r5, r6, #0xff", {3}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("adds r4, r5, r6", {2, 3}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("adc r4, r5, r6", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("tst r4, #1", {1}, {}, {}, "", TRUE, TRUE, FALSE),
  Row("mla r4, r5, r6, r6", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("umull r4, r5, r6, r6", {3}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("bfi r4, r5, #3, #5", {1, 2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("bfc r4, #3, #5", {1}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("ubfx r5, r6, #4, #9", {3}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("sxth r4, r5, ror #8", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("clz r6, r4", {1}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("rbit r4, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("rev r4, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("usat r4, #5, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("lsl r4, r5, r6", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("asr r4, r5, #4", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, sp, #16", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("sub sp, sp, #32; add sp, sp, #32", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mrs r4, apsr", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("mrc p15, 0, r5, c13, c0, 3", {}, {2}, {}, "", FALSE, FALSE, FALSE),
  Row("dmb ish", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("yield", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("push {r4, r5, r6}; pop {r4, r5, r6}", {1, 2, 3}, {1, 2, 3}, {}, "", FALSE, TRUE, FALSE),
  Row("push {r4, lr}; pop {r5, lr}", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("str r5, [sp, #-8]!; ldr r6, [sp], #8", {2}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("ldr r4, [r7, #4]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr r4, [r7, #-8]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrb r5, [r7, #1]", {4}, {2}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrsh r6, [r7, #2]", {4}, {3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrh r6, [r7, #6]", {4}, {3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr r4, [r7], #4", {4}, {1, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr r4, [r7, #-8]!", {4}, {1, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrd r4, r5, [r7, #8]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("strd r4, r5, [r7, #16]", {1, 2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldm r7, {r4, r5, r6}", {4}, {1, 2, 3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldm r7!, {r4, r5}", {4}, {1, 2, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("stmdb r7!, {r4, r5}", {1, 2, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("str r5, [r7], #4", {2, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("strb r5, [r7, #3]", {2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrex r4, [r7]; strex r5, r4, [r7]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("ldreq r4, [r7]", {1, 4}, {}, {1}, "", FALSE, TRUE, TRUE),
  Row("strne r4, [r7]", {1, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("pld [r7]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vldr d0, [r7, #8]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vldr s1, [r7, #8]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vstr d1, [r7, #16]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vldm r7, {d0, d1}", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vpush {d0, d1}; vpop {d2, d3}", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov s0, r4", {1}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov r4, s0", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov r4, r5, d0", {}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov d1, r5, r6", {2, 3}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vadd.f64 d0, d0, d1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("veor d0, d0, d1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vdup.32 q0, r4", {1}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vcvt.f64.s32 d0, s1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mov r4, pc; mov r5, pc; sub r4, r4, r5", {}, {1, 2}, {}, "", FALSE, FALSE, FALSE),
  Row("str pc, [r7]", {4}, {}, {}, "", FALSE, FALSE, TRUE),
  Row("stm r7, {r4, pc}", {1, 4}, {}, {}, "", FALSE, FALSE, TRUE),
  Row("add r4, pc, #4", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, pc, #4; add r4, r4, #8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("sub r4, pc, #8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("sub r4, pc, r5", {2}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("add r4, pc, r5, lsl #2", {2}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("orr r4, pc, #1", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("mvn r4, pc", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("rsb r4, pc, #7", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("cmp pc, r4", {1}, {}, {}, "", TRUE, FALSE, FALSE),
  Row("addeq r4, r4, pc", {1}, {}, {1}, "", FALSE, FALSE, FALSE),
  Row("push {pc}; pop {r4}", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("pld [pc, #16]", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("strne pc, [r7]", {4}, {}, {}, "", FALSE, FALSE, TRUE)}

T32Rows == {
  Row("movt r4, #0x1234", {1}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("mvn r5, #7", {}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("it eq; moveq r4, r5", {1, 2}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("it ne; movne r6, #5", {3}, {}, {3}, "", FALSE, TRUE, FALSE),
  Row("it ne; addne r4, r5, r6", {1, 2, 3}, {}, {1}, "", FALSE, TRUE, FALSE),
  Row("add r4, r5, r6, lsl #3", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("rsb r4, r5, #7", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("bic r5, r6, #0xff", {3}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("adds r4, r5, r6", {2, 3}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("adc r4, r5, r6", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("tst r4, #1", {1}, {}, {}, "", TRUE, TRUE, FALSE),
  Row("mla r4, r5, r6, r6", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("umull r4, r5, r6, r6", {3}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("bfi r4, r5, #3, #5", {1, 2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("bfc r4, #3, #5", {1}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("ubfx r5, r6, #4, #9", {3}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("sxth r4, r5, ror #8", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("clz r6, r4", {1}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("rbit r4, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("rev r4, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("usat r4, #5, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("lsl r4, r5, r6", {2, 3}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("asr r4, r5, #4", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, sp, #16", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("sub sp, sp, #32; add sp, sp, #32", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("mrs r4, apsr", {}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("mrc p15, 0, r5, c13, c0, 3", {}, {2}, {}, "", FALSE, FALSE, FALSE),
  Row("dmb ish", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("yield", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("push {r4, r5, r6}; pop {r4, r5, r6}", {1, 2, 3}, {1, 2, 3}, {}, "", FALSE, TRUE, FALSE),
  Row("push {r4, lr}; pop {r5, lr}", {1}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("str r5, [sp, #-8]!; ldr r6, [sp], #8", {2}, {3}, {}, "", FALSE, TRUE, FALSE),
  Row("ldr r4, [r7, #4]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr r4, [r7, #-8]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrb r5, [r7, #1]", {4}, {2}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrsh r6, [r7, #2]", {4}, {3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrh r6, [r7, #6]", {4}, {3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr r4, [r7], #4", {4}, {1, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("ldr r4, [r7, #-8]!", {4}, {1, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrd r4, r5, [r7, #8]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("strd r4, r5, [r7, #16]", {1, 2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldm r7, {r4, r5, r6}", {4}, {1, 2, 3}, {}, "", FALSE, TRUE, TRUE),
  Row("ldm r7!, {r4, r5}", {4}, {1, 2, 4}, {}, "", FALSE, TRUE, TRUE),
  Row("stmdb r7!, {r4, r5}", {1, 2, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("str r5, [r7], #4", {2, 4}, {4}, {}, "", FALSE, TRUE, TRUE),
  Row("strb r5, [r7, #3]", {2, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("ldrex r4, [r7]; strex r5, r4, [r7]", {4}, {1, 2}, {}, "", FALSE, TRUE, TRUE),
  Row("it eq; ldreq r4, [r7]", {1, 4}, {}, {1}, "", FALSE, TRUE, TRUE),
  Row("it ne; strne r4, [r7]", {1, 4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("pld [r7]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vldr d0, [r7, #8]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vldr s1, [r7, #8]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vstr d1, [r7, #16]", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vldm r7, {d0, d1}", {4}, {}, {}, "", FALSE, TRUE, TRUE),
  Row("vpush {d0, d1}; vpop {d2, d3}", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov s0, r4", {1}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov r4, s0", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov r4, r5, d0", {}, {1, 2}, {}, "", FALSE, TRUE, FALSE),
  Row("vmov d1, r5, r6", {2, 3}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vadd.f64 d0, d0, d1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("veor d0, d0, d1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vdup.32 q0, r4", {1}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("vcvt.f64.s32 d0, s1", {}, {}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, pc, #4", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, pc, #4; add r4, r4, #8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("pld [pc, #16]", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("itte ne; movne r4, #5; movne r5, #6; moveq r6, #7", {1, 2, 3}, {}, {1, 2, 3}, "", FALSE, TRUE, FALSE),
  Row("ite eq; addeq r4, r4, #1; subne r5, r5, #1", {1, 2}, {}, {1, 2}, "", FALSE, TRUE, FALSE),
  Row("movs r4, #5", {}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("adds r4, r4, r5", {1, 2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("lsls r4, r5, #3", {2}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("ldr r4, [sp, #4]", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("str r5, [sp, #-4]!; ldr r5, [sp], #4", {2}, {2}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, sp, #8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("add r4, r5", {1, 2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("uxtb r4, r5", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("mov r4, pc; mov r5, pc; subs r4, r4, r5", {}, {1, 2}, {}, "", TRUE, FALSE, FALSE),
  Row("add r4, pc", {1}, {1}, {}, "", FALSE, FALSE, FALSE),
  Row("it ne; addne r4, pc", {1}, {}, {1}, "", FALSE, FALSE, FALSE),
  Row("adr.w r4, #8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("adr.w r4, #-8", {}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("adr r4, #8; adds r4, #4", {}, {1}, {}, "", TRUE, TRUE, FALSE),
  Row("cbz r4, #0; nop", {1}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("cbnz r5, #2; nop; nop", {2}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("b #0; nop", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("beq #0; nop", {}, {}, {}, "", FALSE, FALSE, FALSE),
  Row("orr.w r4, r5, #0xff00", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("addw r4, r5, #0x123", {2}, {1}, {}, "", FALSE, TRUE, FALSE),
  Row("ldr.w r4, [r7, #0x80]", {4}, {1}, {}, "", FALSE, TRUE, TRUE),
  Row("strd r4, r5, [sp, #-16]!; ldrd r5, r6, [sp], #16", {1, 2}, {2, 3}, {}, "", FALSE, TRUE, FALSE)}

RowsOf(arch) ==
  CASE arch = "x64" -> X64Rows [] arch = "x86" -> X86Rows [] arch = "a64" -> A64Rows
    [] arch = "a32" -> A32Rows [] arch = "t32" -> T32Rows
=============================================================================

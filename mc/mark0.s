	.section .note.GNU-stack,"",@progbits
	.data
	.balign 64
	.globl mc_data_begin_
mc_data_begin_:
	.bss
	.balign 64
	.globl mc_bss_begin_
mc_bss_begin_:

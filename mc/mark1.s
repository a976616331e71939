	.section .note.GNU-stack,"",@progbits
	.data
	.balign 64
	.globl mc_data_end_
mc_data_end_:
	.bss
	.balign 64
	.globl mc_bss_end_
mc_bss_end_:

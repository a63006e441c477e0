NOTES = {
'C07': 'The scheduling of pools with soft results is bounded to two preemptions (stated in the job); the others explore every interleaving, under sequential consistency (one atomic flag is involved). Stopping from inside a block or handler is outside the claim.',
'C08': 'Threads run under one fair round-robin schedule here (C07 explores the schedules); the event sequences, configurations and result codes vary.',
'C09': 'Doubles are decided bit-precisely; the growth bound is checked for listed maxima and multipliers, the cap for every maximum.',
}

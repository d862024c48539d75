TECHNIQUE = 'deterministic simulation with fault injection (seeded decisions, simulated environment, reference models, minimised replay)'

NOT_APPLICABLE = {
    'N30': 'Statement about a pure function of its arguments: no schedule, clock, I/O or fault takes part, so a simulator would only be an input generator.',
    'N31': 'Statement about a pure function of its arguments: no schedule, clock, I/O or fault takes part, so a simulator would only be an input generator.',
    'N32': 'Statement about a pure function of its arguments: no schedule, clock, I/O or fault takes part, so a simulator would only be an input generator.',
    'N33': 'Statement about a pure function of its arguments: no schedule, clock, I/O or fault takes part, so a simulator would only be an input generator.',
}

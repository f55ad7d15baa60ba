"""Instructions with arbitrary fields, for the parts of the system that only use the instruction interface."""


def fake_class():
    from semantic_codec.architecture.instruction import Instruction

    class Fake(Instruction):
        def __init__(self, address, encoding, cond=14, op=0, read=(), written=(), used=None, undefined=False,
                     branch=False, link=False, target=None, pushpop=None, flags=False, text=None):
            super(Fake, self).__init__(encoding, address)
            self.cond, self.op, self.read, self.written, self.und = cond, op, list(read), list(written), undefined
            self.used = used if used is not None else self.read + [x for x in self.written if x not in self.read]
            self.branch, self.link, self.target, self.pushpop, self.flags = branch, link, target, pushpop, flags
            self.text = text

        @property
        def conditional_field(self):
            return self.cond

        @property
        def opcode_field(self):
            return self.op

        @property
        def opcode_type(self):
            return self.op

        def registers_used(self):
            return [x for x in self.used if x < 16 or x == 17]

        def registers_read(self):
            return [x for x in self.read if x < 16 or x == 17]

        def registers_written(self):
            return [x for x in self.written if x < 16 or x == 17]

        def storages_used(self):
            return list(self.used) if self.used else [18]

        def storages_read(self):
            return list(self.read)

        def storages_written(self):
            return list(self.written)

        @property
        def is_undefined(self):
            return self.und

        @property
        def is_branch(self):
            return self.branch

        @property
        def is_branch_with_link(self):
            return self.branch and self.link

        @property
        def is_push_pop(self):
            return self.pushpop is not None

        def is_a(self, name):
            return self.pushpop in (name if isinstance(name, (list, tuple)) else [name])

        _inst_is = is_a

        def _writes_to_memory(self):
            return 16 in self.written

        def _read_from_memory(self):
            return 16 in self.read

        @property
        def jumping_address(self):
            return self.target if self.branch else None

        def modifies_flags(self):
            return self.flags

        def __str__(self):
            return self.text if self.text is not None else 'i%d' % self.encoding
    return Fake


def model(other=False):
    """The default probabilistic model, or one with other probabilities, in another order and with larger differences."""
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    m = DefaultProbabilisticModel()
    if other:
        m.low_probability, m.high_probability = 0.02, 0.98
        m.push_given_pop_at_fn_end_equal_registers, m.push_given_pop_at_fn_end, m.push_given_pop_at_fn_middle = 0.45, 0.21, 0.87
        m.push_given_pop_at_fn_end_and_middle = 0.05
        m.branch_after_cpsr_and_near_cond_are_equals, m.branch_after_cpsr_and_prev_cond_are_equals = 0.92, 0.17
        m.branch_after_cpsr_and_after_cond_are_equals, m.branch_after_cpsr = 0.81, 0.11
        m.both_conditionals_are_equals, m.prev_conditionals_are_equals = 0.97, 0.23
        m.just_any_jump_is_valid, m.branch_to_this_method, m.branch_to_other_method_start = 0.13, 0.37, 0.59
    return m

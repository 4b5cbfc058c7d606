SPECIFICATION Spec
INVARIANTS NetFits NoticesDamage Truth Arrives Stuck
CHECK_DEADLOCK FALSE

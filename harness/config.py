"""Per-property configuration of the checks."""
TECH = "TLA+ specification checked with TLC; recorded executions of the real code validated against it (trace validation)"
NOTE = "Every recorded call of the real code is decided by the TLA+ specification with exact rational arithmetic; inputs are seeded random small models plus edge cases and TLC-generated behaviours (bounded, not a proof). Trusts TLC, the Java rational override (cross-checked against its pure TLA+ definition) and the recorder."
NA = {}
def num(q=8, t=25): return [dict(driver="drv_num", spec="T_Num", shards=7, quick=q, thorough=t)]
def em(*ks): return [dict(module="MC_EM", cfg="MC_EM_%s_%s.cfg" % (k, t[0]), tiers=(t,)) for k in ks for t in ("quick", "thorough")]
PROPS = {
 "C01": dict(drivers=num(14), design=[dict(module="MC_Trellis"), dict(module="MC_Rat"), dict(module="MC_Rat", cfg="MC_Rat_t.cfg", tiers=("thorough",)), dict(module="MC_Rat", cfg="MC_Rat_pure.cfg", override=False)]),
 "C02": dict(drivers=num(14), design=[dict(module="MC_Trellis")]),
 "C03": dict(drivers=num(14), design=em("HMM", "MC")),
 "C04": dict(drivers=num(14), design=em("MDP")),
 "C05": dict(drivers=num(14), design=em("CTMC", "CTMCU")),
 "C06": dict(drivers=num(14)),
 "C07": dict(drivers=[dict(driver="drv_pem", spec="T_PEM", shards=7, quick=10, thorough=60)],
      design=[dict(module="MC_PEM", cfg="MC_PEM_u_q.cfg"), dict(module="MC_PEM", cfg="MC_PEM_v_q.cfg")] + [dict(module="MC_PEM", cfg="MC_PEM_%s_t.cfg" % x, tiers=("thorough",)) for x in "tuv"]),
 "C10": dict(drivers=[dict(driver="drv_set", spec="T_Set", shards=7, quick=60, thorough=300)],
      design=[dict(module="MC_Set", cfg="MC_Set_q.cfg", gen="set", tiers=("quick",)), dict(module="MC_Set", cfg="MC_Set_t.cfg", gen="set", tiers=("thorough",))]),
 "C08": dict(drivers=[dict(driver="drv_pool", spec="T_Pool", shards=7, quick=4, thorough=20)],
      design=[dict(module="MC_Pool", cfg="MC_Pool_q.cfg", gen="pool", tiers=("quick",)), dict(module="MC_Pool", cfg="MC_Pool_t.cfg", gen="pool", tiers=("thorough",))]),
 "C09": dict(drivers=[dict(driver="drv_fit", spec="T_Fit", shards=7, quick=5, thorough=30)],
      design=[dict(module="MC_Fit")]),
 "C19": dict(drivers=[dict(driver="drv_build", spec="T_Build", shards=7, quick=8, thorough=60)],
      design=[dict(module="MC_Build", cfg="MC_Build_%s.cfg" % k, gen="build" + k) for k in ("MC", "MDP", "CTMC")]),
 "C20": dict(drivers=[dict(driver="drv_query", spec="T_Query", shards=7, quick=5, thorough=20)],
      design=[dict(module="MC_Query", cfg="MC_Query_q.cfg", gen="query")]),
 "C13": dict(drivers=[dict(driver="drv_persist", spec="T_Persist", shards=7, quick=60, thorough=300)],
      design=[dict(module="MC_Files", cfg="MC_Files_q.cfg", gen="files", tiers=("quick",)), dict(module="MC_Files", cfg="MC_Files_t.cfg", gen="files", tiers=("thorough",))]),
 "C18": dict(drivers=[dict(driver="drv_inst", spec="T_Inst", shards=7, quick=100, thorough=500)],
      design=[dict(module="MC_Inst", cfg="MC_Inst_q.cfg", gen="inst"), dict(module="MC_Inst", cfg="MC_Inst_t.cfg", tiers=("thorough",))]),
 "C11": dict(drivers=[dict(driver="drv_run", spec="T_Run", shards=7, quick=10, thorough=40)],
      design=[dict(module="MC_Runs", cfg="MC_Runs_q.cfg", tiers=("quick",)), dict(module="MC_Runs", cfg="MC_Runs_t.cfg", tiers=("thorough",))]),
 "C12": dict(drivers=[dict(driver="drv_sched", spec="T_Sched", shards=7, quick=15, thorough=80)],
      design=[dict(module="MC_Sched", cfg="MC_Sched_q.cfg", gen="sched", tiers=("quick",)), dict(module="MC_Sched", cfg="MC_Sched_t.cfg", gen="sched", tiers=("thorough",))]),
 "C15": dict(drivers=[dict(driver="drv_merge", spec="T_Merge", shards=7, quick=60, thorough=250)],
      design=[dict(module="MC_Merging", cfg="MC_Alergia_q.cfg", gen="MC"), dict(module="MC_Merging", cfg="MC_Alergia_t.cfg", tiers=("thorough",), workers=4)]),
 "C16": dict(drivers=[dict(driver="drv_merge", spec="T_Merge", shards=7, quick=60, thorough=250)],
      design=[dict(module="MC_Merging", cfg="MC_IOAlergia_q.cfg", gen="IO"), dict(module="MC_Merging", cfg="MC_IOAlergia_t.cfg", tiers=("thorough",), workers=4)]),
 "C14": dict(drivers=[dict(driver="drv_conv", spec="T_Convert", shards=7, quick=150, thorough=300)],
      design=[dict(module="MC_Convert", cfg="MC_Convert_%s.cfg" % k, gen="conv" + k) for k in ("MC", "CTMC", "MDP")]),
 "C17": dict(drivers=[dict(driver="drv_comp", spec="T_Compose", shards=7, quick=60, thorough=200)],
      design=[dict(module="MC_Compose", cfg="MC_Compose_q.cfg", gen="comp"), dict(module="MC_Compose", cfg="MC_Compose_3.cfg"), dict(module="MC_Compose", cfg="MC_Compose_t.cfg", tiers=("thorough",), workers=4)]),
 "C21": dict(drivers=[dict(driver="drv_active", spec="T_Active", shards=7, quick=45, thorough=300)],
      design=[dict(module="MC_Active", cfg="MC_Active_q.cfg"), dict(module="MC_Active", cfg="MC_Active_t.cfg", tiers=("thorough",), workers=4)]),
}

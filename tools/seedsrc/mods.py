SEEDS = [
 dict(id="c15-daycore-v2", property="C15",
  edits=[("beatmap/difficulty/mods.go", "if m.Active(Daycore) {\n\t\tm |= HalfTime", "if m.Active(Daycore) && !m.Active(ScoreV2) {\n\t\tm |= HalfTime")],
  needs="a mod text naming both Daycore and ScoreV2", breaks="Daycore no longer implies Half Time when Score V2 is selected too",
  imports=["beatmap/difficulty"],
  demo='''fmt.Println(difficulty.ParseMods("DCV2").StringFull(), difficulty.ParseMods("DCV2").Active(difficulty.HalfTime), difficulty.ParseMods("DC").Active(difficulty.HalfTime))'''),
 dict(id="c15-full-perfect", property="C15",
  edits=[("beatmap/difficulty/mods.go", "	if mods.Active(Perfect) {\n		mods &= ^SuddenDeath\n	}\n\n	for i := 0; i < len(modsString); i++ {\n		activated := mods&1 == 1\n		if activated {\n			s = append", "	if mods.Active(Perfect) && !mods.Active(Nightcore) {\n		mods &= ^SuddenDeath\n	}\n\n	for i := 0; i < len(modsString); i++ {\n		activated := mods&1 == 1\n		if activated {\n			s = append")],
  needs="the full form of a selection with Perfect, Sudden Death and Nightcore", breaks="the full form names Sudden Death beside Perfect when Nightcore is selected",
  imports=["beatmap/difficulty"],
  demo='''m := difficulty.Perfect | difficulty.SuddenDeath | difficulty.Nightcore | difficulty.DoubleTime
fmt.Println(m.String(), m.StringFull())'''),
 dict(id="c14-customspeed-lag", property="C14",
  edits=[("beatmap/difficulty/difficulty.go", "func (diff *Difficulty) SetCustomSpeed(speed float64) {\n	diff.CustomSpeed = speed\n	diff.calculate()", "func (diff *Difficulty) SetCustomSpeed(speed float64) {\n	diff.CustomSpeed = speed\n	if speed != 1 {\n		diff.calculate()\n	}")],
  needs="setting a custom speed and then setting it back to 1", breaks="derived speed and displayed AR/OD stay those of the earlier custom speed",
  imports=["beatmap/difficulty"],
  demo='''d := difficulty.NewDifficulty(5, 4, 8, 9)
d.SetCustomSpeed(1.5)
d.SetCustomSpeed(1)
fmt.Printf("%.5g %.5g %.5g\\n", d.Speed, d.ARReal, d.ODReal)'''),
 dict(id="c14-ez-hr-cap", property="C14",
  edits=[("beatmap/difficulty/difficulty.go", "	if diff.Mods&HardRock > 0 {\n		ar = math.Min(ar*1.4, 10)\n		cs = math.Min(cs*1.3, 10)\n		od = math.Min(od*1.4, 10)\n		hp = math.Min(hp*1.4, 10)\n	}\n\n	if diff.Mods&Easy > 0 {\n		ar /= 2\n		cs /= 2\n		od /= 2\n		hp /= 2\n	}", "	if diff.Mods&Easy > 0 {\n		ar /= 2\n		cs /= 2\n		od /= 2\n		hp /= 2\n	}\n\n	if diff.Mods&HardRock > 0 {\n		ar = math.Min(ar*1.4, 10)\n		cs = math.Min(cs*1.3, 10)\n		od = math.Min(od*1.4, 10)\n		hp = math.Min(hp*1.4, 10)\n	}")],
  needs="Easy and Hard Rock selected together with a setting above 10/1.4", breaks="the Hard Rock limit of 10 is applied after halving, so Easy+Hard Rock settings come out too high",
  imports=["beatmap/difficulty"],
  demo='''d := difficulty.NewDifficulty(9, 9, 9, 9)
d.SetMods(difficulty.Easy | difficulty.HardRock)
fmt.Printf("%.5g %.5g %.5g %.5g\\n", d.CircleRadius, d.Preempt, d.Hit300, d.HPMod)'''),
]

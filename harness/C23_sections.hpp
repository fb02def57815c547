// Catch2 and doctest: the properties have no name, several per test case.
SECTION(FRAMEWORK, 200, 8000) {
  switch (rng.below(4)) {
  case 0: oneProperty(rng, FRAMEWORK " one", "", "one", &p1, "p1"); break;
  case 1: { // verbose: always shown
    const Script s = randomScript(rng);
    const TestParams p = randomParams(rng);
    const auto e = expected(&p2, s, p, {}, "");
    const auto c = runChild("two", s, p, {}, rng);
    judge(FRAMEWORK " two " + s.str(), c, e, only(c.trace, "p2"));
    CHECK(squeeze(c.out).find(squeeze(e.text)) != std::string::npos && (e.verdict != 'S' || c.out.find("- takes two") != std::string::npos), "message", "verbose check not shown: " << c.out.substr(0, 900));
    break;
  }
  case 2: oneProperty(rng, FRAMEWORK " zero", "", "zero", [] { p0(); }, "p0"); break;
  default: oneProperty(rng, FRAMEWORK " ret", "", "ret", [](int x) { trace("B ret " + toString(x)); return x < script().t; }, "ret");
  }
}
// Several in one test case: each is run, the test case fails if one does.
SECTION(FRAMEWORK "-several", 60, 2500) {
  const Script s = randomScript(rng);
  const TestParams p = randomParams(rng);
  const auto a = expected(&p1, s, p, {}, ""), b = expected(&p2, s, p, {}, ""), d = expected(&p0, s, p, {}, "");
  const auto c = runChild("several", s, p, {}, rng);
  const std::string ctx = FRAMEWORK " several script " + s.str();
  CHECK((c.rc == 0) == (a.verdict == 'S' && b.verdict == 'S' && d.verdict == 'S'), "verdict", ctx << ": exit code " << c.rc << " for " << a.verdict << b.verdict << d.verdict << "\n" << c.out.substr(0, 900));
  for (auto *e : {&a, &b, &d}) {
    const std::string which = e == &a ? "p1" : e == &b ? "p2" : "p0";
    CHECK(only(c.trace, which) == e->runs, "executions", ctx << ": " << which << " executed other cases in the program: " << only(c.trace, which).substr(0, 300) << " instead of " << e->runs.substr(0, 300));
    if (e->verdict != 'S') CHECK(squeeze(c.out).find(squeeze(e->text)) != std::string::npos, "message", ctx << ": the output lacks\n" << e->text << "\n" << c.out.substr(0, 1500));
    mon::st().counters[std::string("verdict_") + e->verdict]++;
  }
  mon::count("whole_programs");
  mon::distinctStr(ctx + std::to_string(p.seed));
}

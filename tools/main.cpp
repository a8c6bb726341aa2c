#include "core.h"
#include "writers.h"

void checkC01(Program &, Report &, const std::string &);
void checkC02(Program &, Report &, const std::string &);
void checkC03(Program &, Report &, const std::string &);
void checkC04(Program &, Report &, const std::string &);
void checkC05(Program &, Report &, const std::string &);
void checkC07(Program &, Report &, const std::string &);
void checkC14(Program &, Report &, const std::string &);
void checkC16(Program &, Report &, const std::string &);
void checkC15(Program &, Report &, const std::string &);
void checkC13(Program &, Report &, const std::string &);
void checkC09(Program &, Report &, const std::string &);
void checkC06(Program &, Report &, const std::string &);
void dumpWhole(Program &, Report &, const std::string &);
void checkC08(Program &, Report &, const std::string &);
void checkC11(Program &, Report &, const std::string &);
void checkC12(Program &, Report &, const std::string &);
void dumpWriters(Program &P, Report &R, const std::string &);

static const std::map<std::string, CheckFn> checks = {
    {"C01", checkC01}, {"C02", checkC02}, {"C03", checkC03}, {"C04", checkC04}, {"C05", checkC05}, {"C06", checkC06}, {"C07", checkC07},
    {"C09", checkC09}, {"C08", checkC08}, {"C11", checkC11}, {"C12", checkC12}, {"C13", checkC13}, {"C14", checkC14}, {"C15", checkC15}, {"C16", checkC16},
    {"dump-writers", dumpWriters}, {"dump-whole", dumpWhole},
};

int main(int argc, char **argv) {
  if (argc < 3) {
    errs() << "usage: atcheck <linked.bc> <check> [tier]\n";
    return 2;
  }
  LLVMContext C;
  Program P(C);
  if (!P.load(argv[1]))
    return 2;
  auto it = checks.find(argv[2]);
  if (it == checks.end()) {
    errs() << "unknown check " << argv[2] << "\n";
    return 2;
  }
  Report R;
  R.property = argv[2];
  it->second(P, R, argc > 3 ? argv[3] : "quick");
  R.print(outs());
  return 0;
}

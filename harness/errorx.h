// C30: legacy errors of applications against the numbers given by the generator.
#pragma once
#include "pbt.h"
#include <bcl/legacy/exception.h>
#include <bcl/legacy/text.h>
#include <map>
#include <string>
#include <vector>
using pbt::Gen;

namespace ex {
/// One error of an application, as it is and as it has to be.
struct Row {
  const char *Name;
  int App;
  int (*Code)();
  std::string (*Type)(), (*Brief)(), (*Text)(), (*Thrown)(Gen &, int, const char *);
  void (*Throw)(), (*ThrowCast)(const std::string &, const std::string &);
  int WantCode;
  const char *WantType, *WantBrief, *WantParent, *WantText;
  int Depth;
};
/// What an application makes of an error; the offset is negative if it does not know the application.
struct View {
  const char *Acronym;
  int (*Code)(const Base::IException &);
  std::string (*Text)(const Base::IException &);
  bool (*IsOwn)(const Base::IException &);
  std::vector<int> Offset;
};
template <class App> int viewCode(const Base::IException &E) { return E.Code<App>(); }
template <class App> std::string viewText(const Base::IException &E) { return E.ToText<App>(); }
template <class App> bool viewOwn(const Base::IException &E) { return dynamic_cast<const Base::Exception<App> *>(&E) != nullptr; }
template <class App, class Id> int rowCode() { return Base::CodeOfError<Id, App>(); }
template <class App, class Id> std::string rowType() { return Base::TypeOfError<Id, App>(); }
template <class Id> std::string rowBrief() { return Base::BriefOfError<Id>(); }
template <class App, class Id> std::string rowText() { return Base::ErrorToText<Id, App>(); }
template <class App, class Id> void rowThrow() { throw typename Base::Exception<App>::template Error<Id>(); }
template <class App, class Id> void rowCast(const std::string &F, const std::string &T) {
  throw typename Base::Exception<App>::template TypeCastError<Id>(F, T);
}
/// Is the error caught as one of its own application?
template <class App, class Id> std::string rowCaught(Gen &g, int, const char *) {
  try {
    rowThrow<App, Id>();
  } catch (const typename Base::Exception<App>::template Error<Id> &E) {
    return E.Message();
  }
  return "not caught";
}

inline void runErrors(Gen &g, const std::vector<Row> &Rows, const std::vector<View> &Views) {
  const Row &R = Rows[g.below(Rows.size())];
  NOTE("error " << R.Name);
  CHECK("code", R.Code() == R.WantCode, << "the code is " << R.Code() << " instead of " << R.WantCode);
  CHECK("type", R.Type() == R.WantType, << "the type is " << R.Type() << " instead of " << R.WantType);
  CHECK("brief", R.Brief() == R.WantBrief, << "the description is " << R.Brief() << " instead of " << R.WantBrief);
  CHECK("text", R.Text() == R.WantText, << "the text is " << R.Text() << " instead of " << R.WantText);
  CHECK("catch", R.Thrown(g, 0, "") == R.WantBrief, << R.Thrown(g, 0, ""));
  std::string Message = R.WantBrief;
  bool Cast = g.coin();
  std::string From = g.bytes(12), To = g.bytes(12);
  if (Cast) {
    Message = std::string(R.WantParent) + (*R.WantParent ? ": " : "") + "type cast from type '" + From + "' to type '" + To + "' is not valid";
    NOTE("thrown as an error of a type cast");
  }
  std::vector<int> Known;
  for (std::size_t I = 0; I < Views.size(); ++I)
    if (Views[I].Offset[R.App] >= 0) Known.push_back((int)I);
  const View &V = Views[Known[g.below(Known.size())]];
  NOTE("in " << V.Acronym);
  try {
    if (Cast) R.ThrowCast(From, To);
    else R.Throw();
    pbt::fail("throw", "nothing is thrown");
  } catch (const Base::IException &E) {
    CHECK("thrown-code", E.RelativeCode() == R.WantCode, << E.RelativeCode() << " instead of " << R.WantCode);
    CHECK("thrown-type", E.Type() == R.WantType, << E.Type());
    CHECK("thrown-brief", E.Brief() == R.WantBrief, << E.Brief());
    CHECK("message", E.Message() == Message, << pbt::show(E.Message()) << " instead of " << pbt::show(Message));
    int Want = R.WantCode + V.Offset[R.App];
    CHECK("absolute", V.Code(E) == Want, << "the code in " << V.Acronym << " is " << V.Code(E) << " instead of " << Want);
    std::string Text = std::string(V.Acronym) + ": " + R.WantType + " " + std::to_string(Want) + ": " + Message;
    CHECK("absolute-text", V.Text(E) == Text, << pbt::show(V.Text(E)) << " instead of " << pbt::show(Text));
    for (std::size_t I = 0; I < Views.size(); ++I)
      CHECK("application", Views[I].IsOwn(E) == ((int)I == R.App), << "the error is " << ((int)I == R.App ? "not " : "") << "one of " << Views[I].Acronym);
  }
  if (R.Depth > 1 || V.Offset[R.App] > 0) g.nontrivial();
}
/// Codes of all errors that an application knows are different.
inline void runUnique(Gen &g, const std::vector<Row> &Rows, const std::vector<View> &Views) {
  for (auto &V : Views) {
    std::map<int, const char *> Seen;
    for (auto &R : Rows) {
      if (V.Offset[R.App] < 0) continue;
      try {
        R.Throw();
      } catch (const Base::IException &E) {
        auto P = Seen.emplace(V.Code(E), R.Name);
        CHECK("unique", P.second, << R.Name << " and " << P.first->second << " have the same code in " << V.Acronym);
      }
    }
  }
  g.nontrivial();
}
} // namespace ex

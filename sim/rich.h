// Random use of the whole document API (pages, drawing, fonts, images, outlines, attachments, annotations,
// form fields, metadata). No model: used where two executions are compared with each other.
#pragma once
#include "docutil.h"

namespace sim {

void addRichOp(Rng& rng, Plan& plan, bool fonts = true);
// true if the op was a rich one. Errors of the library propagate.
bool richOp(mm::PdfMemDocument& doc, const Op& op);
std::string pngBytes(Rng& rng, unsigned w, unsigned h, bool alpha = false);   // independent PNG encoder (8 bit)

} // namespace sim

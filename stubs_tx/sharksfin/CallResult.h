#pragma once
namespace sharksfin { class CallResult {}; }

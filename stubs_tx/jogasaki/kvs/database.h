#pragma once
namespace jogasaki::kvs { class database {}; }

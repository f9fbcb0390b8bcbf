#pragma once
namespace tensorflow { class Session {}; }

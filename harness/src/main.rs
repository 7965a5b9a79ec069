mod api;
mod builder;
mod channel;
mod codes;
mod corpus;
mod flow;
mod frame;
mod framing;
mod net;
mod payload;
mod pipe;
mod report;
mod session;
mod timed;
mod trace;
mod util;
mod wire;

#[global_allocator]
static ALLOC: framing::Counting = framing::Counting;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "session" => session::main(&args[1..]),
        "payload" => payload::main(&args[1..]),
        "wire" => wire::main(&args[1..]),
        "pipe" => pipe::main(&args[1..]),
        "stdio-echo" => pipe::stdio_echo(),
        "api" => api::main(&args[1..]),
        "codes" => codes::main(&args[1..]),
        "ids" => api::ids_main(&args[1..]),
        "builder" => builder::main(&args[1..]),
        "channel" => channel::main(&args[1..]),
        "timed" => timed::main(&args[1..]),
        "flow" => flow::main(&args[1..]),
        "flow-agent" => flow::agent(&args[1..]),
        "trace" => trace::main(&args[1..]),
        "trace-child" => trace::child(&args[1..]),
        "framing" => framing::main(&args[1..]),
        "stdio-reader" => framing::stdio_reader(),
        "stdio-server" => session::stdio_server(&args[1]),
        c => panic!("unknown command {c}"),
    }
}

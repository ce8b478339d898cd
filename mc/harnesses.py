harness('crash')
harness('journal')
harness('model')
harness('generated', schemas=('g1',))
harness('upgrade', schemas=('u1', 'u2', 'u3'))
harness('files')
harness('share', schemas=('s1',))
harness('server', groups=('core','asio'))
harness('server_asan', groups=('core', 'asio'), variant='asan', sources=('server.cpp',))
harness('transaction', groups=('core', 'asio'), schemas=('s1',))
harness('hash')
harness('iofault', variant='asan')
harness('convert', variant='asan', sources=('convert.cpp', 'main_convert.cpp', 'main_pack.cpp', 'main_merge.cpp', 'main_to_json.cpp', 'main_logdump.cpp'))
harness('hostile', variant='asan', schemas=('g1',))
harness('fanout', variant='asan')
harness('opening', schemas=('s1',))
harness('blob', groups=('core', 'asio'))
harness('encoded', groups=('core', 'enc'), variant='asan', sources=('encoded.cpp', 'encoded_release.cpp'))

from oidcmsg.storage.db_setup import create_database


def created_where_configured():
    c = symdict('conf')
    assume('url' in c)
    u = c['url']
    assume(isinstance(u, str))
    assume(u)
    create_database(c)
    if not created_at(u):
        fail('the table is not created in the configured database')
    if 'url' not in c or not same(c['url'], u):
        fail('the configuration is changed')
    reached()

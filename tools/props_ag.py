prop("A01", "Clients aggregated to one session: every message and answer finds its client",
     "With AggregatingGateway, a client's PUBLISH, PUBREL, SUBSCRIBE and UNSUBSCRIBE travel on the gateway's own session under message ids that are unique there, and the broker's answers reach the client they are for under its own message id; a message sent again keeps its id, "
     "and an id is known until the exchange it belongs to is complete. A client's CONNECT, will, PINGREQ and DISCONNECT are answered by the gateway itself, stored messages first; a clean session ends its earlier subscriptions to registered topics. "
     "A PUBLISH of the broker is handed once to each client for every topic filter of its that matches, and acknowledged to the broker exactly once. An UNSUBSCRIBE goes to the broker only when no other client has subscribed to the same filter, and is answered in any case. "
     "The tables of message ids, filters and subscribers change exactly as asked and leave nothing behind. Malformed packets have no effect.",
     ["inputs", "histories"], "every packet content and length, client status, dup flag; every outcome of every look-up; distribution over up to three filters with up to three clients each; tables with up to three entries",
     "no test runs the gateway, let alone in aggregating mode",
     [G + "MQTTSNGWAggregater.cpp", G + "MQTTSNGWAggregateTopicTable.cpp", G + "MQTTSNGWMessageIdTable.cpp", G + "MQTTSNAggregateConnectionHandler.cpp", G + "MQTTGWPublishHandler.cpp", G + "MQTTSNGWPublishHandler.cpp", G + "MQTTSNGWSubscribeHandler.cpp", G + "MQTTGWSubscribeHandler.cpp"],
     [("message ids", "MessageIdTable::add, getClientMsgId, getMsgId"), ("subscriptions", "AggregateTopicTable::add, erase, find"), ("distribution", "MQTTGWPublishHandler::handleAggregatePublish"), ("acknowledgements", "handleAggregatePuback, handleAggregateAck, handleAggregateSuback, handleAggregateUnsuback"),
      ("connections", "MQTTSNAggregateConnectionHandler")],
     ["events posted to the packet, client and broker send queues", "tables", "client state"], ORC,
     "As for the other handlers; in addition the gateway's own session is R05's. Not claimed: wills and keep-alive of aggregated clients (the gateway keeps neither), what is subscribed at the broker after a clean session, predefined and short topics in a clean session.")
prop("W01", "A topic name matches a topic filter exactly by MQTT's rules",
     "A topic name matches a filter exactly if they match level by level: a level of the filter matches the same level, '+' any one level, also an empty one, and '#' at the end any number of levels, none included; a match is not affected by the levels' contents, by common beginnings or by where empty levels stand. "
     "The look-up always ends.",
     ["inputs"], "filters and names of up to four levels, each level empty, one of two texts of any content and length, one following the other, or a wildcard",
     "the tests try a dozen pairs", [G + "MQTTSNGWTopic.cpp"], [("matching", "Topic::isMatch"), ("its use", "Topics::match, AggregateTopicTable::getNextAggregateTopicElement")],
     ["result of Topic::isMatch"], AI + " over an abstract domain of texts",
     "Trusted: clang front end, the IR dump, the abstract interpreter, the text domain and its models of std::string. Code that walks over characters is analysed with levels of single characters (any character). Names without wildcards; a '#' only as the last level. Not claimed: names that begin with '$'.")
